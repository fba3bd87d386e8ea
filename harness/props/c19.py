# coding: utf-8
"""C19: trivial coefficients, operation counts and displays of the coefficients"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, re, math
from fractions import Fraction as F
from oracle import *
import systems as sy, sifs
from fixif.SIF import SIF
from fixif.SIF.SIF import isTrivial

check = Check('C19', assumptions=["values whose relative distance to a power of two is between half and twice the threshold are not decided by the property"])

near = st.tuples(st.integers(-1000, 1000), st.sampled_from([-1, 1]), st.one_of(st.just(0.), st.floats(-0.3, 0.4), st.sampled_from([1e-7, -1e-7, 3e-8, -3e-8, 2e-9, -2e-9, 1e-12, -1e-15, 1e-5, -1e-4, 0.01])), st.sampled_from([1e-8, 1e-8, 1e-8, 1e-3, 1e-5, 1e-10])).map(list)

def ref_trivial(x, eps):
	"""True, False or None (too close to the threshold)"""
	if x == 0:
		return True
	X = abs(F(x))
	m, e = math.frexp(abs(x))
	d = min(abs(X / F(2) ** e - 1), abs(X / F(2) ** (e - 1) - 1))
	if d < F(eps) / 2:
		return True
	if d > 2 * F(eps):
		return False
	return None

@check.part(near, quick=1500, thorough=20000, rule="doubles close to a power of two (relative distance 0 to 0.4) and various thresholds; non-trivial: distance lower than 100 times the threshold, without being 0")
def trivial(c, ctx):
	e, s, d, eps = c
	x = s * math.ldexp(1. + d, e)
	if d < -0.25:
		x = s * math.ldexp(abs(d), e)
	ref = ref_trivial(x, eps)
	got = bool(isTrivial(x, eps))
	assert isTrivial(0., eps) and isTrivial(0, eps)
	if ref is None:
		ctx.label('undecided')
		return
	assert got == ref, "isTrivial(%r, %r) is %s" % (x, eps, got)
	ctx.nontrivial(d != 0 and abs(d) < 100 * eps)
	ctx.label(got)


dcoef = st.one_of(sifs.coef, sifs.coef, st.floats(-30, 30).filter(lambda x: x == 0 or abs(x) > 1e-3), st.sampled_from([12., -7., 10., 1e3, -3., 0.5 + 1e-12, 1e7]), st.sampled_from([2. ** -60, -1e-13, 3e-200, 2. ** -1000, 1e-5, 1 + 2. ** -52, -1 + 2. ** -30, 2. ** 60, 2 + 1e-9, -1e-9]))
anysif = st.one_of(sifs.sif(stable=False), sifs.sif(stable=False, entry=dcoef, jentry=sifs.coef), sifs.sif(n=(0, 3)), sifs.sif(stable=False, entry=dcoef, jentry=sifs.coef))

@st.composite
def withd(draw):
	c = draw(anysif)
	d = {k: draw(mat(st.integers(0, 1), *sifs.shapes(c)[k])) for k in sifs.NAMES} if draw(st.integers(0, 3)) == 3 else None
	return dict(c=c, d=d)

def full(c):
	J, K, L, M, N, P, Q, R, S = [np.array(x) for x in sifs.mats(c)]
	return np.block([[-J, M, N], [K, P, Q], [L, R, S]])

def build(d):
	c = d['c']
	if d['d'] is None:
		R = sifs.mk(c)
		D = np.array([[int(not ref_trivial(x, 1e-8)) for x in r] for r in full(c)])
	else:
		dd = tuple(np.matrix(np.array(d['d'][k]).reshape(sifs.shapes(c)[k])) for k in sifs.NAMES)
		R = sifs.mk(c, dd)
		D = np.array(np.bmat([[dd[0], dd[3], dd[4]], [dd[1], dd[5], dd[6]], [dd[2], dd[7], dd[8]]]))
	return R, D

@check.part(withd(), quick=1000, thorough=10000, shards=(1, 4), rule="SIF with deduced or given exactly-represented coefficients; non-trivial: l>=1 and both trivial and non trivial coefficients")
def operations(d, ctx):
	c = d['c']
	l, n, p, q = c['size']
	R, D = build(d)
	assert np.array_equal(np.array(R.dZ), D), "dZ is %s instead of %s" % (np.array(R.dZ).tolist(), D.tolist())
	Z = full(c)
	mul, add = R.nbOp()
	adds = 0
	for i in range(l + n + p):
		terms = sum(1 for j in range(l + n + q) if Z[i, j] != 0 and i != j or (i == j and i >= l and Z[i, j] != 0))
		adds += max(0, terms - 1)
	assert mul == D.sum(), "%s multiplications instead of %d" % (mul, D.sum())
	assert add == adds, "%s additions instead of %d" % (add, adds)
	low = any(c['P'][i][j] != 0 for i in range(n) for j in range(i))
	assert bool(R.isPnut()) == low, "isPnut is %s" % R.isPnut()
	ctx.nontrivial(l >= 1 and 0 < D.sum() < D.size)
	ctx.label('lower P' if low else 'upper P', 'zero row' if any(not Z[i].any() for i in range(l, l + n + p)) else '')
	txt = str(R)
	for v, name in ((l, 'l'), (n, 'n'), (p, 'p'), (q, 'q')):
		assert '%s=%d' % (name, v) in txt, "%s=%d is not in %r" % (name, v, txt[:100])


@check.part(withd(), quick=600, thorough=4000, shards=(1, 4), rule="TikZ matrix of a SIF, parsed back; non-trivial: the five kinds of coefficients but one are present")
def tikz(d, ctx):
	c = d['c']
	l, n, p, q = c['size']
	R, D = build(d)
	Z = full(c)
	s = R.getTiKZSparseMatrix()
	assert s.count(r'\begin{tikzpicture}') == 1 and s.count(r'\end{tikzpicture}') == 1
	body = s[s.index(r'\matrix['):]
	body = body[body.index('{\n') + 2:body.rindex('\n};')]
	styles = {m.group(1) for m in re.finditer(r'\\tikzstyle\{(\w+)\}', s)}
	rows = [r for r in body.split('\\\\\n') if r.strip() or '&' in r or True]
	if rows and rows[-1].strip() == '':
		rows = rows[:-1]
	assert len(rows) == l + n + p, "%d rows instead of %d" % (len(rows), l + n + p)
	kinds = set()
	for i, r in enumerate(rows):
		cells = r.split('&')
		assert len(cells) == l + n + q, "row %d has %d columns instead of %d" % (i, len(cells), l + n + q)
		for j, cell in enumerate(cells):
			x = Z[i, j]
			kind = 'one' if x == 1 else 'minusone' if x == -1 else None if x == 0 else 'coef' if D[i, j] else 'power2'
			m = re.search(r'\\node\s*\[(\w+)\]', cell)
			got = m.group(1) if m else None
			assert m or not cell.strip(), "cell %r" % cell
			assert got == kind, "coefficient (%d,%d)=%r is displayed as %s instead of %s" % (i, j, x, got, kind)
			assert got is None or got in styles
			kinds.add(kind)
	ctx.nontrivial(len(kinds) >= 4)


@st.composite
def latex_case(draw):
	return dict(draw(withd()), sparse=draw(st.booleans()), fmt=draw(st.sampled_from([None, '%.4g', '%.17g', '%f', '%.3e'])))

@check.part(latex_case(), quick=600, thorough=4000, shards=(1, 4), rule="tpmatrix (LaTeX) of a SIF, parsed back; non-trivial: coefficients that are not integers, l=0 or p different from q")
def latex(d, ctx):
	c = d['c']
	l, n, p, q = c['size']
	R, D = build(d)
	Z = full(c)
	kw = {} if d['fmt'] is None else dict(strFormat=d['fmt'])
	s = R.getZtpmatrixLaTeX(sparse=d['sparse'], **kw)
	m = re.search(r'\\begin\{tpmatrix\}\[\{(.*?)\}\]\{\}\n(.*)\\end\{tpmatrix\}', s, re.S)
	assert m, s
	lines = [int(x) for x in re.findall(r'line\[dashed\]\{(\d+)\}', m.group(1))]
	o = max(l, 1)        # a state-space is displayed with one (empty) row and column for the intermediate variables
	assert lines == [o, o + n, o, o + n], "separations %s" % lines
	body = m.group(2).rstrip('\t').rstrip('\n')
	rows = body.split('\\\\\n')
	rows = [r.lstrip('\t') for r in rows]
	exp = l + n + p + (l == 0)
	assert len(rows) == exp, "%d rows instead of %d" % (len(rows), exp)
	for i, r in enumerate(rows):
		cells = r.split('\\&')
		assert len(cells) == o + n + q, "row %d has %d columns instead of %d" % (i, len(cells), o + n + q)
		for j, cell in enumerate(cells):
			cell = cell.strip()
			if l == 0 and (i == 0 or j == 0):
				assert cell == '', "the row and column of the intermediate variables should be empty"
				continue
			x = Z[i - (l == 0), j - (l == 0)]
			if x == 0 and d['sparse']:
				assert cell == '', "null coefficient displayed %r" % cell
			elif x == int(x):
				assert int(cell) == x, "%r instead of %r" % (cell, x)
			else:
				assert cell == (d['fmt'] or '%.4g') % x, "%r instead of %r" % (cell, x)
	ctx.nontrivial(D.any() and (l == 0 or p != q))
	ctx.label('l=0' if l == 0 else '', 'sparse' if d['sparse'] else 'full')
