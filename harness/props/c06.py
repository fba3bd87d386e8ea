# coding: utf-8
"""C06: transfer functions: construction and algebra"""
from core import Check
from gens import *
from hypothesis import strategies as st
import numpy as np, copy
from fractions import Fraction as F
from oracle import mpf_to_F
import systems as sy
from fixif.LTI import dTF

check = Check('C06', assumptions=["the results are compared as rational functions, coefficient by coefficient after cross multiplication, with a relative tolerance of 1e-13 on the sum of the moduli",
	"fixif.WCPG (external package) is replaced by a stand-in that sums the impulse response"])

coef = st.one_of(sy.eighths, sy.eighths, st.floats(-4, 4).filter(lambda x: x == 0 or abs(x) > 1e-6), st.just(0.))
lead = st.one_of(st.sampled_from([1., 1., 2., -1., 0.5, -4.]), st.floats(0.1, 8), st.floats(-8, -0.1))

@st.composite
def tf(draw, nmax=5):
	num = draw(st.lists(coef, min_size=1, max_size=nmax + 1))
	den = [draw(lead)] + draw(st.lists(coef, max_size=nmax))
	if draw(st.booleans()):
		den = (den + [0.5] * len(num))[:len(num)]
	return dict(num=num, den=den)

def same_function(R, N, D, magN, magD, what):
	"""R.num/R.den == N/D"""
	rn, rd = sy.listF(R.num), sy.listF(R.den)
	a = sy.polymulF(rn, D)
	b = sy.polymulF(N, rd)
	mag = sy.polyaddF(sy.polymulF([abs(x) for x in rn], magD), sy.polymulF(magN, [abs(x) for x in rd]))
	d = sy.polyaddF(a, b, -1)
	for k, x in enumerate(d):
		assert abs(x) <= F(1, 10 ** 13) * mag[k], "%s: not the right function (coefficient of z^-%d after cross multiplication: difference %g)" % (what, k, float(x))
	assert any(x != 0 for x in rd)


@check.part(st.tuples(tf(7), st.sampled_from(['list', 'array', 'matrix', 'row'])).map(lambda t: dict(t[0], type=t[1])), quick=500, thorough=8000,
	rule="coefficients of degree 0..7 (not necessarily the same), any first coefficient of the denominator; non-trivial: the lengths differ or the first coefficient is not 1")
def construction(c, ctx):
	f = {'list': list, 'array': np.array, 'matrix': np.matrix, 'row': lambda v: [v]}[c['type']]
	num, den = f(c['num']), f(c['den'])
	cn, cd = copy.deepcopy(num), copy.deepcopy(den)
	H = dTF(num, den)
	assert np.array_equal(num, cn) and np.array_equal(den, cd), "an argument has been modified"
	n = max(len(c['num']), len(c['den'])) - 1
	assert H.order == n, "order %r instead of %d" % (H.order, n)
	for got, ref, name in ((H.num, c['num'], 'num'), (H.den, c['den'], 'den')):
		assert got.shape[0] == 1
		got = np.array(got).flatten().tolist()
		for k in range(max(len(got), len(ref))):
			g = got[k] if k < len(got) else 0.
			r = ref[k] / c['den'][0] if k < len(ref) else 0.
			assert abs(g - r) <= 4e-16 * abs(r), "%s[%d] is %r instead of %r" % (name, k, g, r)
	assert H.den[0, 0] == 1., "not normalized"
	ctx.nontrivial(len(c['num']) != len(c['den']) or c['den'][0] != 1.)
	ctx.label('order %d' % n, 'same' if len(c['num']) == len(c['den']) else 'num longer' if len(c['num']) > len(c['den']) else 'den longer')


@check.part(st.tuples(tf(3), st.sampled_from(['zero', 'num2d', 'den2d', 'numcol'])).map(lambda t: dict(t[0], what=t[1])), quick=150, thorough=1000,
	rule="arguments that do not define a transfer function; non-trivial: all")
def rejections(c, ctx):
	num, den = list(c['num']), list(c['den'])
	if c['what'] == 'zero':
		den[0] = 0.
	elif c['what'] == 'num2d':
		num = [num, num]
	elif c['what'] == 'den2d':
		den = [den, den]
	else:
		num = [[x] for x in num + [1.]]
	ctx.label(c['what'])
	try:
		dTF(num, den)
	except ValueError:
		ctx.nontrivial()
		return
	raise AssertionError("%s is not rejected" % c['what'])


# expressions: ['tf', i] | ['neg', e] | [op, e, e] | ['s'+op, number, e] | [op+'s', e, number]
scal = st.one_of(st.integers(-4, 4), st.sampled_from([0.5, -1.5, 2.25, 0.1]), st.floats(-4, 4).filter(lambda x: abs(x) > 1e-6))

def expr(depth):
	leaf = st.integers(0, 3).map(lambda i: ['tf', i])
	if depth == 0:
		return leaf
	e = expr(depth - 1)
	return st.one_of(leaf,
		st.tuples(st.sampled_from(['+', '-', '*', '-', '+', '*', 'rsub']), e, e).map(list),
		st.tuples(st.just('neg'), e).map(list),
		st.tuples(st.sampled_from(['s+', 's-', 's*', '+s', '-s', '*s']), scal, e).map(list))

@st.composite
def expressions(draw):
	op = draw(st.sampled_from(['+', '-', '*', 'rsub', 'neg', 's+', 's-', 's*', '+s', '-s', '*s']))
	e = [op, draw(expr(1)), draw(expr(1))] if op in ('+', '-', '*', 'rsub') else ['neg', draw(expr(1))] if op == 'neg' else [op, draw(scal), draw(expr(1))]
	tfs = [draw(tf(3)) for _ in range(4)]
	for i in (1, 2):
		k = draw(st.integers(0, 5))
		if k < 2:		# same (or almost the same) denominator, or numerator, as the previous one
			w = draw(st.sampled_from(['den', 'den', 'num']))
			v = list(tfs[i - 1][w])
			j = draw(st.integers(0, len(v) - 1))
			v[j] *= 1 + draw(st.sampled_from([0, 1, -1])) * 2. ** -draw(st.integers(10, 30))
			tfs[i] = dict(tfs[i], **{w: v})
			if draw(st.booleans()):
				tfs[i]['den' if w == 'num' else 'num'] = [x + draw(st.sampled_from([0., 1.])) for x in tfs[i - 1]['den' if w == 'num' else 'num']]
				if tfs[i]['den'][0] == 0:
					tfs[i]['den'][0] = 1.
		elif k == 2:		# very small or large gain
			g = 2. ** draw(st.sampled_from([-80, -40, 40, 80]))
			tfs[i] = dict(tfs[i], num=[x * g for x in tfs[i]['num']])
	return dict(tfs=tfs, e=e)

def ref(e, tfs):
	"""(N, D, magN, magD), exact"""
	k = e[0]
	if k == 'tf':
		N, D = [F(x) for x in tfs[e[1]]['num']], [F(x) for x in tfs[e[1]]['den']]
		return N, D, [abs(x) for x in N], [abs(x) for x in D]
	if k == 'neg':
		N, D, mN, mD = ref(e[1], tfs)
		return [-x for x in N], D, mN, mD
	if k in ('+', '-', '*', 'rsub'):
		a, b = (ref(e[1], tfs), ref(e[2], tfs)) if k != 'rsub' else (ref(e[2], tfs), ref(e[1], tfs))
		k = '-' if k == 'rsub' else k
	elif k[0] == 's':
		s = F(e[1])
		a, b = ([s], [F(1)], [abs(s)], [F(1)]), ref(e[2], tfs)
		k = k[1]
	else:
		s = F(e[1])
		a, b = ref(e[2], tfs), ([s], [F(1)], [abs(s)], [F(1)])
		k = k[0]
	if k == '*':
		return sy.polymulF(a[0], b[0]), sy.polymulF(a[1], b[1]), sy.polymulF(a[2], b[2]), sy.polymulF(a[3], b[3])
	s = 1 if k == '+' else -1
	return (sy.polyaddF(sy.polymulF(a[0], b[1]), sy.polymulF(a[1], b[0]), s), sy.polymulF(a[1], b[1]),
		sy.polyaddF(sy.polymulF(a[2], b[3]), sy.polymulF(a[3], b[2])), sy.polymulF(a[3], b[3]))

def run(e, T):
	k = e[0]
	if k == 'tf':
		return T[e[1]]
	if k == 'neg':
		return -run(e[1], T)
	if k == 'rsub':
		return run(e[1], T).__rsub__(run(e[2], T))
	if k in '+-*':
		a, b = run(e[1], T), run(e[2], T)
	elif k[0] == 's':
		a, b, k = e[1], run(e[2], T), k[1]
	else:
		a, b, k = run(e[2], T), e[1], k[0]
	return a + b if k == '+' else a - b if k == '-' else a * b

@check.part(expressions(), quick=900, thorough=20000, shards=(2, 8), rule="expressions (depth <= 2) with +, -, *, unary minus, numbers on the left or on the right; non-trivial: at least two transfer functions, lengths or leading zeros that differ")
def algebra(c, ctx):
	T = [sy.mk_dTF(h) for h in c['tfs']]
	before = [(np.array(t.num), np.array(t.den)) for t in T]
	R = run(c['e'], T)
	assert isinstance(R, dTF), "the result is a %s" % type(R)
	N, D, mN, mD = ref(c['e'], c['tfs'])
	same_function(R, N, D, mN, mD, 'expression %s' % (c['e'],))
	for t, (n, d) in zip(T, before):
		assert np.array_equal(t.num, n) and np.array_equal(t.den, d), "an operand has been modified"
	used = []
	def walk(e):
		if e[0] == 'tf':
			used.append(c['tfs'][e[1]])
		else:
			for x in e[1:]:
				if isinstance(x, list):
					walk(x)
	walk(c['e'])
	ctx.nontrivial(len(used) >= 2 and (len({len(h['num']) for h in used}) > 1 or any(len(h['num']) != len(h['den']) or h['num'][0] == 0 for h in used)))
	ctx.label(c['e'][0], '%d tf' % len(used))


@st.composite
def related(draw):
	"""two transfer functions that share (exactly or almost) their denominator or their numerator, one with the other, or are opposite"""
	a = draw(tf(4))
	if draw(st.booleans()):
		n = max(len(a['num']), len(a['den']))
		a = dict(num=(a['num'] + [1.] * n)[:n], den=(a['den'] + [0.25] * n)[:n])
	b = dict(num=list(a['num']), den=list(a['den']))
	for w in ('num', 'den'):
		k = draw(st.sampled_from(['same', 'near', 'near', 'new', 'neg', 'scaled']))
		v = b[w]
		if k == 'near':
			j = draw(st.integers(0, len(v) - 1))
			v[j] = v[j] + draw(st.sampled_from([1, -1])) * 2. ** -draw(st.integers(8, 33))
		elif k == 'new':
			b[w] = [draw(coef) for _ in v]
		elif k == 'neg':
			b[w] = [-x for x in v]
		elif k == 'scaled':
			g = 2. ** draw(st.sampled_from([-60, -20, -1, 1, 30]))
			b[w] = [x * g for x in v]
	if b['den'][0] == 0:
		b['den'][0] = 1.
	return dict(tfs=[a, b], e=[draw(st.sampled_from(['+', '-', '*', 'rsub'])), ['tf', 0], ['tf', draw(st.integers(0, 3).map(lambda k: int(k > 0)))]])

@check.part(related(), quick=800, thorough=15000, shards=(2, 8), rule="sum, difference and product of two transfer functions that are equal, opposite, or have (almost) the same numerator or denominator; non-trivial: they differ")
def related_operands(c, ctx):
	T = [sy.mk_dTF(h) for h in c['tfs']]
	N, D, mN, mD = ref(c['e'], c['tfs'])
	same_function(run(c['e'], T), N, D, mN, mD, '%s of close transfer functions' % c['e'][0])
	ctx.nontrivial(c['tfs'][0] != c['tfs'][1])
	ctx.label(c['e'][0])


@check.part(st.tuples(tf(3), st.sampled_from(['+', '-', '*', 'r-', 'r+', 'r*']), st.sampled_from(['str', 'list', 'none'])).map(list), quick=100, thorough=500, rule="an operand that is not a number nor a dTF; non-trivial: all")
def wrong_operand(c, ctx):
	H = sy.mk_dTF(c[0])
	x = {'str': 'x', 'list': [1, 2], 'none': None}[c[2]]
	ctx.nontrivial()
	try:
		R = {'+': lambda: H + x, '-': lambda: H - x, '*': lambda: H * x, 'r-': lambda: x - H, 'r+': lambda: x + H, 'r*': lambda: x * H}[c[1]]()
	except (ValueError, TypeError):
		return
	raise AssertionError("%s with %r gives %r" % (c[1], x, R))


@st.composite
def pairs(draw):
	a = draw(tf(4))
	return dict(a=a, pad=[draw(st.integers(0, 2)), draw(st.integers(0, 2))], where=draw(st.sampled_from(['num', 'den'])), idx=draw(st.integers(0, 6)), ratio=draw(st.sampled_from([0., 0.25, 0.9, 1.1, 3., 1e3])),
		eps=draw(st.sampled_from([None, 1e-3, 1e-9, 0.1])), swap=draw(st.booleans()), spread=draw(st.sampled_from([1, 1, 1, 2, 3])))

@check.part(pairs(), quick=400, thorough=5000, rule="two transfer functions that differ by one to three coefficients (0 to 1000 times the bound), possibly with zeros appended; non-trivial: they differ or have different lengths")
def closeness(c, ctx):
	num, den = list(c['a']['num']), list(c['a']['den'])
	den[0] = 1.
	eps = c['eps'] or 1e-7
	H1 = dTF(num, den)
	num2, den2 = num + [0.] * c['pad'][0], den + [0.] * c['pad'][1]
	v = num2 if c['where'] == 'num' else den2
	i = c['idx'] % len(v)
	if c['where'] == 'den' and i == 0:
		if len(den2) == 1:
			den2 = v = den2 + [0.]
		i = 1
	first = 1 if c['where'] == 'den' else 0
	spread = min(c['spread'], len(v) - first)
	if spread > 1:		# the difference is distributed over several coefficients (2-norm)
		for k in range(spread):
			j = first + (i - first + k) % (len(v) - first)
			old = v[j]
			v[j] += c['ratio'] * eps / spread ** 0.5
			if c['ratio'] and abs((v[j] - old) * spread ** 0.5 / eps - c['ratio']) > 0.01:
				return
	else:
		v[i] += c['ratio'] * eps
	if spread == 1 and c['ratio'] and abs(abs(v[i] - (num + [0.] * 9 if c['where'] == 'num' else den + [0.] * 9)[i]) / eps - c['ratio']) > 0.01:
		return
	H2 = dTF(num2, den2)
	if c['swap']:
		H1, H2 = H2, H1
	try:
		if c['eps'] is None:
			H1.assert_close(H2)
		else:
			H1.assert_close(H2, eps)
		ok = True
	except AssertionError:
		ok = False
	assert ok == (c['ratio'] < 1), "difference of %g eps on %s[%d]: %s" % (c['ratio'], c['where'], i, 'accepted' if ok else 'rejected')
	ctx.nontrivial(c['ratio'] > 0 or any(c['pad']))
	ctx.label('x%g' % c['ratio'])


@check.part(sy.transfer_function(n=(0, 6), a0=True), quick=250, thorough=4000, rule="stable transfer functions; non-trivial: order >= 2")
def wcpg_and_scipy(c, ctx):
	H = sy.mk_dTF(c)
	h = sy.imp_tf(c['num'], c['den'], 60)
	lo = float(sum(abs(x) for x in h))
	W = H.WCPG()
	w = float(np.array(W).flatten()[0])
	# exact value by a long simulation in doubles
	num, den = np.array(c['num']) / c['den'][0], np.array(c['den']) / c['den'][0]
	from scipy.signal import lfilter
	d = np.zeros(4000)
	d[0] = 1
	hi = float(np.abs(lfilter(num, den, d)).sum())
	assert w >= lo * (1 - 1e-9) and abs(w - hi) <= 1e-6 * hi + 1e-12, "WCPG is %r instead of %r" % (w, hi)
	assert float(np.array(H.WCPG()).flatten()[0]) == w
	# scipy object: same function
	tf = H.toTransferFunction()
	z = 1.1 + 0.9j
	v = np.polyval(tf.num, z) / np.polyval(tf.den, z)
	r = sum(a * z ** -i for i, a in enumerate(c['num'])) / sum(a * z ** -i for i, a in enumerate(c['den']))
	assert abs(v - r) <= 1e-9 * (1 + sum(map(abs, c['num'])) * 10), "toTransferFunction: %r instead of %r" % (v, r)
	ctx.nontrivial(H.order >= 2)
	ctx.label('order %d' % H.order)


@check.part(tf(5), quick=150, thorough=2000, rule="any transfer function; non-trivial: order >= 2")
def text(c, ctx):
	H = sy.mk_dTF(c)
	lines = [l for l in str(H).split('\n') if l.strip()]
	assert len(lines) == 3 and lines[1].startswith('H(z) = ---'), str(H)
	for line, ref in ((lines[0], H.num), (lines[2], H.den)):
		ref = np.array(ref).flatten().tolist()
		terms = line.strip().split(' + ')
		got = {}
		for t in terms:
			v, _, e = t.partition('z^')
			got[-int(e) if e else 0] = got.get(-int(e) if e else 0, 0.) + float(v)
		assert all(got.get(k, 0.) == v for k, v in enumerate(ref)) and all(k < len(ref) for k in got), "%r does not show %r" % (line, ref)
	ctx.nontrivial(H.order >= 2)
