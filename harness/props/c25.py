# coding: utf-8
"""C25: names of the variables and texts of the sums of products"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, re
from fractions import Fraction as F
from oracle import *
from props.c23 import parse, coefficient
from fixif.SoP import SoP, generateNames, VarName
from pylatexenc.latex2text import LatexNodes2Text

check = Check('C25', assumptions=["place of the suffix in the name is not specified (the documentation and the code differ): the name with a suffix contains it and differs from all the others"])

plain = st.text(alphabet='abcdefgXYZ', min_size=1, max_size=5)
fancy = st.lists(st.sampled_from(['a', 'Z', '_', 'α', 'é', '%', '&', '#', 'Ω', 'x']), min_size=1, max_size=4).map(''.join)

@st.composite
def names_case(draw):
	nb = draw(st.integers(0, 12))
	kind = draw(st.sampled_from(['none', 'str', 'tuple', 'mixed', 'wrong']))
	base = draw(plain)
	sur = None
	if kind != 'none':
		m = nb if kind != 'wrong' else draw(st.integers(0, 13))
		sn = draw(st.lists(st.one_of(plain, fancy), min_size=m, max_size=m))
		tup = [kind == 'tuple' or (kind in ('mixed', 'wrong') and draw(st.booleans())) for _ in range(m)]
		sur = [[s, draw(st.one_of(st.none(), st.integers(0, 20))), draw(st.integers(-15, 15))] if t else s for s, t in zip(sn, tup)]
	return dict(nb=nb, base=base, sur=sur, shift=draw(st.integers(-12, 12)), time=draw(st.booleans()), wsur=draw(st.booleans()), latex=draw(st.booleans()), suffix=draw(st.sampled_from(['', '', 'p', '_n'])), by=draw(st.sampled_from(['list', 'tuple'])))

def timestr(k):
	return '(k)' if k == 0 else '(k+%d)' % k if k > 0 else '(k-%d)' % -k

@check.part(names_case(), quick=3000, thorough=40000, rule="lists of names with all kinds of surnames (indexes, shifts in time, special characters), all the options of display; non-trivial: at least two variables")
def names(d, ctx):
	sur = None if d['sur'] is None else [s if isinstance(s, str) else tuple(s) for s in d['sur']]
	if sur is not None and d['by'] == 'tuple':
		sur = tuple(sur)
	if sur is not None and len(sur) != d['nb']:
		ctx.label('wrong number')
		try:
			generateNames(d['base'], d['nb'], surnames=sur)
		except ValueError:
			return
		raise AssertionError("%d surnames for %d variables are accepted" % (len(sur), d['nb']))
	L = generateNames(d['base'], d['nb'], surnames=sur)
	assert len(L) == d['nb'] and all(isinstance(v, VarName) for v in L), "%d names" % len(L)
	opt = dict(withTime=d['time'], shift=d['shift'], withSurname=d['wsur'], LaTeX=d['latex'])
	out = []
	for i, v in enumerate(L):
		assert v.name == d['base'], "name %r" % v.name
		s = v.toStr(**opt)
		assert s == v.toStr(**opt), "not the same twice"
		nm, ind, sh = d['base'], i + 1 if d['nb'] > 1 else None, 0
		if d['wsur'] and sur is not None:
			nm, ind, sh = (sur[i], None, 0) if isinstance(sur[i], str) else sur[i]
		exp_time = timestr(d['shift'] + (sh if d['wsur'] else 0)) if d['time'] else ''
		if d['latex']:
			assert s[0] == '$' and s[-1] == '$', "no math delimiters: %r" % s
			core = s[1:-1]
			assert core.endswith(exp_time), "%r does not end with %r" % (s, exp_time)
			core = core[:len(core) - len(exp_time)]
			exp_ind = '' if ind is None else '_{%d}' % ind
			assert core.endswith(exp_ind), "%r has not the index %s" % (s, ind)
			core = core[:len(core) - len(exp_ind)]
			if re.match(r'^[A-Za-z]+$', nm):
				assert core == nm, "%r instead of %r" % (core, nm)
			else:
				assert LatexNodes2Text(math_mode='text').latex_to_text(core) == nm, "%r is not the LaTeX of %r" % (core, nm)
		else:
			exp = nm + ('' if ind is None else str(ind)) + exp_time
			assert s == exp, "%r instead of %r" % (s, exp)
		if d['suffix']:
			s2 = v.toStr(suffix=d['suffix'], **opt)
			assert s2.count(d['suffix']) == s.count(d['suffix']) + 1 or s2.replace(d['suffix'], '', 1) == s or len(s2) == len(s) + len(d['suffix']), "suffix: %r" % s2
			assert sorted(s2) == sorted(s + d['suffix']), "suffix: %r" % s2
			assert not d['time'] or s2.endswith(exp_time + ('$' if d['latex'] else '')), "suffix: %r" % s2
		out.append(s)
		assert v.hasSurnameWithIndex() == (sur is not None and not isinstance(sur[i], str) and sur[i][2] != 0 and sur[i][0] != d['base']), "hasSurnameWithIndex of %r" % (sur[i] if sur else None,)
	if not d['wsur'] or sur is None:
		assert len(set(out)) == len(out), "names are not distinct: %s" % out
	ctx.nontrivial(len(L) > 1)
	ctx.label('LaTeX' if d['latex'] else 'text', 'surnames' if sur is not None and d['wsur'] else 'names', 'time' if d['time'] else 'no time')

cst = st.one_of(floats(), st.sampled_from([0., 1., -1., -0., 2., 0.5, 1e-300, -1e300, 5e-324, 1 + 2. ** -52, -1 - 2. ** -52, 1 - 2. ** -53, -1 + 2. ** -53]), st.integers(-100, 100).map(lambda k: k / 16.))
@st.composite
def sops(draw):
	n = draw(st.integers(0, 12))
	return dict(co=draw(st.lists(cst, min_size=n, max_size=n)), names=draw(st.sampled_from(['x%d', 'x%d(k)', 'u[%d]', 'a_very_long_name_of_variable_that_takes_place_%d(k-1)'])), assign=draw(st.sampled_from([None, '<-', '=', '$\\leftarrow$', ' ='])), fmt=draw(st.sampled_from([None, None, '%.17g', '%.12f', '%r', '%.3e'])),
		extra=draw(st.sampled_from([0, 0, 0, 1, -1])), same=draw(st.booleans()))

@check.part(sops(), quick=3000, thorough=40000, rule="sums of products of any doubles; the text is parsed and its coefficients compared; non-trivial: at least two terms that are not null")
def texts(d, ctx):
	co = d['co']
	names_ = [d['names'] % i for i in range(max(0, len(co) + d['extra']))]
	if len(names_) != len(co):
		try:
			SoP(list(co), names_, 'r')
		except ValueError:
			return
		raise AssertionError("%d constants and %d names are accepted" % (len(co), len(names_)))
	nz = [(F(c), v) for c, v in zip(co, names_) if c != 0]
	res = 'r(k+1)'
	if d['same'] and names_:
		res = names_[-1]
	c0, n0 = list(co), list(names_)
	S = SoP(co, names_, res)
	kw = {} if d['fmt'] is None else dict(coefFormat=d['fmt'])
	if d['assign'] is not None:
		kw['assign'] = d['assign']
	txt = S.toAlgoStr(**kw)
	assert (co, names_) == (c0, n0), "the lists are modified"
	ident = nz == [(F(1), res)]
	if ident:
		assert txt == '', "useless line %r" % txt
		ctx.label('identity')
		return
	a = (d['assign'] or '<-').strip()
	lines = txt.split('\n')
	for ln in lines:
		assert len(ln) <= 60 or ' ' not in ln.strip(), "line too long: %r" % ln
	head = txt.split(None, 2)
	assert head[0] == res and head[1] == a, "%r does not begin by '%s %s'" % (txt, res, a)
	prog = parse(res.replace('$', '') + ' <- ' + head[2])
	assert len(prog) == 1
	terms = prog[0][1]
	assert [v for _, v in terms] == [v for _, v in nz], "terms %s instead of %s" % ([v for _, v in terms], [v for _, v in nz])
	for (c, v), (x, _) in zip(terms, nz):
		if d['fmt'] in (None, '%.17g', '%r'):
			ok = F(float(c)) == x if d['fmt'] else c == x
		elif d['fmt'] == '%.12f':
			ok = abs(c - x) <= F(1, 2 * 10 ** 12)
		else:
			ok = abs(c - x) <= abs(x) * F(1, 1000)
		assert ok, "coefficient of %s: %s instead of %s" % (v, float(c), float(x))
	if not nz:
		assert head[2] == '0', "null sum displayed %r" % head[2]
	s = str(S)
	p2 = s.split(None, 2)
	assert p2[0] == res and p2[1] == '<-', "str: %r" % s
	t2 = parse('r <- ' + p2[2])[0][1]
	assert [v for _, v in t2] == [v for _, v in nz] and all(abs(c - x) <= F(1, 10 ** 6) for (c, _), (x, _) in zip(t2, nz)), "str: %r" % s
	ctx.nontrivial(len(nz) >= 2)
	ctx.label('%d lines' % min(3, len(lines)))


# ---------------- fixed-point sums of products ----------------
from fixif.FxP import Constant, FPF
from fixif.SoP.FxPSoP import FxPSoP

fmt_ = st.tuples(st.integers(-20, 20), st.integers(0, 24)).map(lambda t: [t[0], t[0] - t[1]])

@st.composite
def fixed_point(draw):
	n = draw(st.integers(1, 12))
	co = draw(st.lists(st.one_of(st.floats(-8, 8).filter(lambda x: abs(x) > 1e-6), st.integers(-40, 40).filter(bool).map(lambda k: k / 8.), st.sampled_from([1., -1., 2. ** -30, 2. ** 20])), min_size=n, max_size=n))
	return dict(co=co, wl=draw(st.lists(st.integers(2, 20), min_size=n, max_size=n)), v=draw(st.lists(fmt_, min_size=n, max_size=n)), r=draw(fmt_),
		sort=draw(st.sampled_from([False, 'msb', 'lsb', None])), axis=draw(st.booleans()), hatches=draw(st.booleans()), shift=[draw(st.integers(-30, 30)), draw(st.integers(-30, 30))],
		colors=draw(st.sampled_from([None, ['red', 'blue', 'black']])), wrong=draw(st.sampled_from([None] * 6 + ['names', 'formats', 'floats', 'constants'])), ex=draw(st.lists(st.integers(0, 2 ** 30), min_size=n, max_size=n)))

FPFTXT = re.compile(r"FPF\((-?\d+),(-?\d+)\)@\(([^,]*),([^)]*)\) colors=(.*?) hatches=(.*?) extra=(.*)")
DRAW = re.compile(r"\\draw \(([-\d.]+),([-\d.]+)\) -- \(([-\d.]+),([-\d.]+)\) \[color=(\w+)")

@check.part(fixed_point(), quick=1000, thorough=15000, rule="fixed-point sums of products: 1..12 constants, formats with positive or negative msb and lsb, all the options of the drawing; non-trivial: at least two products of different formats")
def fixed(d, ctx):
	n = len(d['co'])
	K = [Constant(c, wl=w) for c, w in zip(d['co'], d['wl'])]
	V = [FPF(msb=m, lsb=l) for m, l in d['v']]
	names_ = ['v%d' % i for i in range(n)]
	r = FPF(msb=d['r'][0], lsb=d['r'][1])
	if d['wrong']:
		k, nm, v = list(K), list(names_), list(V)
		if d['wrong'] == 'names':
			nm.append('w')
		elif d['wrong'] == 'formats':
			v = v[:-1]
		elif d['wrong'] == 'constants':
			k.append(k[0])
		else:
			k[-1] = d['co'][-1]
		try:
			FxPSoP(k, nm, v, 's', r)
		except ValueError:
			ctx.label('rejected ' + d['wrong'])
			return
		raise AssertionError("inconsistent arguments (%s) are accepted" % d['wrong'])
	S = FxPSoP(K, names_, V, 's', r)
	# the text is the one of the sum of products of the constants
	assert S.toAlgoStr() == SoP(d['co'], names_, 's').toAlgoStr(), "text %r" % S.toAlgoStr()
	kw = {} if d['sort'] is None else dict(sort=d['sort'])
	txt = S.sumLaTeX(colors=d['colors'], axis=d['axis'], hatches=d['hatches'], xshift=d['shift'][0], yshift=d['shift'][1], **kw)
	assert S.sumLaTeX(colors=d['colors'], axis=d['axis'], hatches=d['hatches'], xshift=d['shift'][0], yshift=d['shift'][1], **kw) == txt, "not the same drawing the second time"
	got = FPFTXT.findall(txt)
	assert len(got) == n + 1, "%d formats drawn instead of %d products and the result" % (len(got), n)
	P = [(int(a), int(b)) for a, b in [g[:2] for g in got[:-1]]]
	# formats of the products: a product of a constant and a variable is a multiple of 2^lsb, and fits (except for the product of the two smallest numbers)
	want = []
	for k, v, x in zip(K, V, d['ex']):
		m = k.FPF.msb + v.msb, k.FPF.lsb + v.lsb
		want.append(m)
		mant = -(1 << (v.wl - 1)) + x % (1 << v.wl)
		val = F(k.mantissa) * F(2) ** k.FPF.lsb * mant * F(2) ** v.lsb
		assert (val / F(2) ** m[1]).denominator == 1
		assert -F(2) ** m[0] <= val <= F(2) ** m[0]
	if d['sort'] == 'msb':
		assert sorted(P) == sorted(want) and [p[0] for p in P] == sorted([w[0] for w in want], reverse=True), "products %s instead of %s by decreasing msb" % (P, want)
	elif d['sort'] == 'lsb':
		assert sorted(P) == sorted(want) and [p[1] for p in P] == sorted(w[1] for w in want), "products %s instead of %s by increasing lsb" % (P, want)
	else:
		assert P == want, "products %s instead of %s" % (P, want)
	assert (int(got[-1][0]), int(got[-1][1])) == (r.msb, r.lsb), "result %s" % (got[-1],)
	assert '%result' in txt.split(got[-1][0])[0] or txt.index('%result') < txt.rindex('FPF(')
	ys = [float(g[3]) for g in got]
	assert all(float(g[2]) == d['shift'][0] for g in got), "the bits are not aligned"
	assert all(a > b for a, b in zip(ys, ys[1:])) and abs(ys[0] - d['shift'][1]) < 1e-9, "vertical positions %s" % ys
	assert all(g[4] == repr(d['colors']) for g in got)
	for g in got[:-1]:
		assert g[5] == repr((r.msb, r.lsb) if d['hatches'] else None), "hatches %s" % g[5]
	# the line of the sum is above the result and covers all the formats
	lines = [[float(x) for x in m[:4]] + [m[4]] for m in DRAW.findall(txt)]
	assert len(lines) == 1 + d['axis'], "%d lines" % len(lines)
	x1, y1, x2, y2, _ = lines[0]
	allf = want + [(r.msb, r.lsb)]
	assert y1 == y2 and ys[-1] < y1, "line of the sum at %r, result at %r" % (y1, ys[-1])
	assert x1 <= -max(f[0] for f in allf) - 1 + d['shift'][0] and x2 >= -min(f[1] for f in allf) + d['shift'][0], "the line of the sum does not cover the formats"
	if d['axis']:
		x1, y1, x2, y2, _ = lines[1]
		assert x1 == x2 == d['shift'][0] and min(y1, y2) < ys[-1] + 1.3 and max(y1, y2) > ys[0], "axis %s" % lines[1]
	ctx.nontrivial(len(set(want)) >= 2)
	ctx.label('sort %s' % d['sort'], 'axis' if d['axis'] else '', 'hatches' if d['hatches'] else '')
