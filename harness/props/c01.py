# coding: utf-8
"""C01: exact matrix addition, subtraction and product of multiple-precision matrices"""
from core import Check, REPO
from gens import *
from hypothesis import strategies as st
import numpy as np, mpmath
from fractions import Fraction as F
from oracle import dyad, matF, mulF, addF, subF, mpf_to_F
from fixif.func_aux import mpf_matrix_fadd, mpf_matrix_fsub, mpf_matrix_fmul, MPFMatrix

check = Check('C01', assumptions=["mpmath's own man/exp representation is used to read the exact value of a result",
	"numpy.matrix operands are converted at a working precision of at least 53 bits (a lower one rounds the doubles by design of mpmath)"])

FUN = dict(add=mpf_matrix_fadd, sub=mpf_matrix_fsub, mul=mpf_matrix_fmul)
REF = dict(add=addF, sub=subF, mul=mulF)
METH = dict(add='add_exact', sub='sub_exact', mul='mul_exact')


@st.composite
def operands(draw):
	op = draw(st.sampled_from(['add', 'sub', 'mul']))
	m, n, p = [draw(st.integers(1, 4)) for _ in range(3)]
	sh = ((m, n), (m, n)) if op != 'mul' else ((m, n), (n, p))
	res = dict(op=op, prec=draw(precs), api=draw(st.sampled_from(['function', 'class'])))
	for name, (a, b) in zip('AB', sh):
		kind = draw(st.sampled_from(['mp', 'np']))
		res[name] = draw(mat(dyads() if kind == 'mp' else floats(), a, b))
		res['kind' + name] = kind
	res['alias'] = draw(st.integers(0, 7)) == 7
	if op == 'add' or op == 'sub':
		# massive cancellations
		if draw(st.integers(0, 4)) == 0 and res['kindA'] == 'mp':
			res['kindB'] = 'mp'
			res['B'] = [[[-x[0] if op == 'add' else x[0], x[1]] for x in r] for r in res['A']]
			i, j = draw(st.integers(0, m - 1)), draw(st.integers(0, n - 1))
			res['B'][i][j] = draw(dyads())
	return res

def build(M, kind):
	if kind == 'mp':
		R = mpmath.matrix(len(M), len(M[0]))
		for i, r in enumerate(M):
			for j, x in enumerate(r):
				R[i, j] = dyad(*x)
		return R
	return np.matrix(M, dtype=float)

def exactly(R, ref):
	got = matF(R)
	assert len(got) == len(ref) and all(len(a) == len(b) for a, b in zip(got, ref)), "wrong shape: %r instead of %r" % ((len(got), len(got[0])), (len(ref), len(ref[0])))
	for i, (a, b) in enumerate(zip(got, ref)):
		for j, (x, y) in enumerate(zip(a, b)):
			assert x == y, "entry (%d,%d) is %s instead of the exact %s" % (i, j, x, y)


@check.part(operands, quick=2400, thorough=60000, shards=(2, 8),
	rule="two conformable matrices (1..4 x 1..4, rectangular) of dyadic numbers with mantissas up to 200 bits and exponents in +-1500, or of doubles up to 1e300, working precision 2..300; non-trivial: some exact result does not fit in the working precision")
def exact_ops(c, ctx):
	mpmath.mp.prec = c['prec'] if (c['kindA'], c['kindB']) == ('mp', 'mp') else max(53, c['prec'])
	prec = mpmath.mp.prec
	A, B = build(c['A'], c['kindA']), build(c['B'], c['kindB'])
	if c.get('alias') and len(c['A']) == len(c['A'][0]) == len(c['B']) == len(c['B'][0]):		# the same object twice
		B = A
	fA, fB = matF(A), matF(B)
	ref = REF[c['op']](fA, fB)
	if c['api'] == 'function':
		R = FUN[c['op']](A, B)
		assert isinstance(R, mpmath.matrix)
	else:
		MA = MPFMatrix(A)
		R = getattr(MA, METH[c['op']])(MA if B is A else MPFMatrix(B))
		assert isinstance(R, MPFMatrix)
	exactly(R, ref)
	assert matF(A) == fA and matF(B) == fB, "an operand has been modified"
	assert mpmath.mp.prec == prec, "the working precision has been changed"
	bits = max(abs(x.numerator).bit_length() for r in ref for x in r)
	ctx.nontrivial(bits > prec)
	ctx.label(c['op'], c['api'], c['kindA'] + c['kindB'], 'needs>prec' if bits > prec else 'fits')
	if len(set([len(fA), len(fA[0]), len(fB[0])])) > 1:
		ctx.label('rectangular')


@st.composite
def bad_operands(draw):
	op = draw(st.sampled_from(['add', 'sub', 'mul']))
	sa = draw(st.tuples(st.integers(1, 4), st.integers(1, 4)))
	sb = draw(st.tuples(st.integers(1, 4), st.integers(1, 4)))
	# make them non conformable (by construction)
	if op == 'mul' and sa[1] == sb[0]:
		sb = (sb[0] % 4 + 1, sb[1])
	if op != 'mul' and sa == sb:
		sb = (sb[0], sb[1] % 4 + 1)
	return dict(op=op, api=draw(st.sampled_from(['function', 'class'])), sa=list(sa), sb=list(sb), np=[draw(st.booleans()), draw(st.booleans())], v=draw(floats(100)))

@check.part(bad_operands, quick=300, thorough=3000, rule="two non conformable matrices; always non-trivial")
def dimension_mismatch(c, ctx):
	A, B = [np.matrix(np.full(s, c['v'])) for s in (c['sa'], c['sb'])]
	if c['api'] == 'class':
		f = lambda: getattr(MPFMatrix(A), METH[c['op']])(MPFMatrix(B))
	else:
		A, B = [X if k else mpmath.matrix(X.tolist()) for X, k in zip((A, B), c['np'])]
		f = lambda: FUN[c['op']](A, B)
	ctx.nontrivial()
	ctx.label(c['op'], c['api'])
	try:
		R = f()
	except ValueError:
		return
	assert False, "non conformable matrices %r, %r accepted (result %s)" % (c['sa'], c['sb'], R)


def xval(x):
	return mpmath.mpf(x) if isinstance(x, str) else dyad(*x)

@st.composite
def special_operands(draw):
	op = draw(st.sampled_from(['add', 'sub', 'mul']))
	m, n, p = [draw(st.integers(1, 3)) for _ in range(3)]
	sh = ((m, n), (m, n)) if op != 'mul' else ((m, n), (n, p))
	elem = st.one_of(dyads(20, 20), dyads(20, 20), dyads(20, 20), st.sampled_from(SPECIAL))
	return dict(op=op, api=draw(st.sampled_from(['function', 'class'])), A=draw(mat(elem, *sh[0])), B=draw(mat(elem, *sh[1])))

@check.part(special_operands, quick=500, thorough=6000, rule="conformable matrices with some NaN/infinite entries: they propagate entry-wise (IEEE rules), the other entries stay exact; non-trivial: some non finite result")
def non_finite(c, ctx):
	A, B = [mpmath.matrix([[xval(x) for x in r] for r in c[k]]) for k in 'AB']
	if c['api'] == 'class':
		R = getattr(MPFMatrix(A), METH[c['op']])(MPFMatrix(B))
	else:
		R = FUN[c['op']](A, B)
	def entry(i, j):
		if c['op'] == 'add':
			return float(A[i, j]) + float(B[i, j])
		if c['op'] == 'sub':
			return float(A[i, j]) - float(B[i, j])
		s = 0.
		for k in range(A.cols):
			s = s + float(A[i, k]) * float(B[k, j])
		return s
	for i in range(R.rows):
		for j in range(R.cols):
			e = entry(i, j)
			g = float(R[i, j])
			if e != e:
				assert g != g, "entry (%d,%d): %r instead of NaN" % (i, j, g)
				ctx.label('nan')
				ctx.nontrivial()
			elif e in (float('inf'), float('-inf')):
				assert g == e, "entry (%d,%d): %r instead of %r" % (i, j, g, e)
				ctx.label('inf')
				ctx.nontrivial()
			else:
				a, b = A[i, j] if c['op'] != 'mul' else None, B[i, j] if c['op'] != 'mul' else None
				x = mpf_to_F(a) + mpf_to_F(b) if c['op'] == 'add' else mpf_to_F(a) - mpf_to_F(b) if c['op'] == 'sub' else sum((mpf_to_F(A[i, k]) * mpf_to_F(B[k, j]) for k in range(A.cols)), F(0))
				assert mpf_to_F(R[i, j]) == x, "entry (%d,%d): %r instead of %r" % (i, j, g, float(x))


UNUSABLE = ['ndarray', 'list', 'none', 'number', 'complex', 'complex_np', 'text']

@check.part(st.fixed_dictionaries(dict(op=st.sampled_from(['add', 'sub', 'mul']), what=st.sampled_from(UNUSABLE), n=st.integers(1, 3), left=st.booleans(), np=st.booleans(), v=floats(100))), quick=100, thorough=1000,
	rule="one operand is not a real matrix (array, list, None, number, text, matrix of complex numbers): refused, whatever the other one; always non-trivial")
def unusable_operands(c, ctx):
	n = c['n']
	A = np.matrix(np.full((n, n), c['v']))
	X = dict(ndarray=np.array(A), list=A.tolist(), none=None, number=2., text='1 2; 3 4', complex=mpmath.matrix(A.tolist()) * mpmath.mpc(1, 1) + mpmath.mpc(0, 1) * mpmath.ones(n, n), complex_np=A + 1j)[c['what']]
	A = A if c['np'] else mpmath.matrix(A.tolist())
	before = matF(A)
	ctx.nontrivial()
	ctx.label(c['op'], c['what'])
	try:
		R = FUN[c['op']](X, A) if c['left'] else FUN[c['op']](A, X)
	except (ValueError, TypeError):
		assert matF(A) == before
		return
	assert False, "operand %r accepted (result %s)" % (X, R)
