# coding: utf-8
"""C32: the texts that display the objects (state-spaces, SIF, realizations, filters, specifications, matrices) show what they contain"""
from core import Check, Invalid
from gens import *
from systems import *
from hypothesis import strategies as st
import numpy as np
import re
import mpmath
import oracle, sifs
from fixif.LTI import dSS, Filter, Gabarit
from fixif.SIF import SIF
from fixif.func_aux import MPFMatrix
from props.c14 import specs, build as mkgab, state as gabstate, kind

check = Check('C32', assumptions=["the values are displayed with at least 4 significant digits; the wording, the spaces and the layout are free"])

NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'

def numbers(s):
	return [float(x) for x in re.findall(NUM, s)]

def shows(txt, M, what):
	got, ref = numbers(txt), np.asarray(M, dtype=float).flatten().tolist()
	assert len(got) == len(ref), "%s: %d values instead of %d in %r" % (what, len(got), len(ref), txt)
	for g, r in zip(got, ref):
		assert abs(g - r) <= 2e-4 * abs(r), "%s: %r instead of %r in %r" % (what, g, r, txt)

values = st.one_of(st.integers(-9, 9).map(float), floats(1e6), st.integers(-1000, 1000).map(lambda k: k / 64.), st.tuples(st.integers(1, 99), st.integers(-60, 60)).map(lambda t: t[0] * 10. ** t[1]))

@st.composite
def spaces(draw):
	n, p, q = draw(st.integers(1, 7)), draw(st.integers(1, 4)), draw(st.integers(1, 4))
	return dict(A=draw(mat(values, n, n)), B=draw(mat(values, n, q)), C=draw(mat(values, p, n)), D=draw(mat(values, p, q)))

@check.part(spaces(), quick=250, thorough=4000, rule="text of a state-space: its dimensions and its four matrices; non-trivial: dimensions all different")
def state_space_text(c, ctx):
	S = dSS(*[np.matrix(c[k]) for k in 'ABCD'])
	n, p, q = len(c['A']), len(c['C']), len(c['B'][0])
	t = str(S)
	head, *rest = re.split(r'(?<![A-Za-z])[ABCD]\s*=', t)
	assert len(rest) == 4, "matrices of %r" % t
	for k, v in (('state', n), ('output', p), ('input', q)):
		assert re.search(r'(?<!\d)%d %ss?\b' % (v, k), head), "%d %s not in %r" % (v, k, head)
	for k, s in zip('ABCD', rest):
		shows(s, c[k], k)
	assert all(np.array_equal(getattr(S, k), np.matrix(c[k])) for k in 'ABCD'), "modified"
	assert str(S) == t and repr(S) == t
	ctx.nontrivial(len({n, p, q}) == 3)
	ctx.label('n=%d' % n)

@check.part(st.tuples(sifs.sif(), st.booleans()), quick=250, thorough=4000, rule="texts of a SIF and of a realization: name, dimensions, Z and dZ; non-trivial: l >= 1")
def sif_text(d, ctx):
	c, real = d
	l, n, p, q = c['size']
	R = sifs.realization(c) if real else sifs.mk(c)
	t = str(R)
	if real:
		assert t.startswith(R.name), "the name %r is not in %r" % (R.name, t)
		t = t[len(R.name):]
	parts = re.split(r'(?<![A-Za-z])(dZ|Z)\s*=', t)
	assert parts[1::2] == ['Z', 'dZ'], "%r" % t
	for k, v in zip('lnpq', (l, n, p, q)):
		assert re.search(r'\b%s\s*=\s*%d\b' % (k, v), parts[0]), "%s=%d not in %r" % (k, v, parts[0])
	for k, v in (('intermediate variable', l), ('state', n), ('output', p), ('input', q)):
		assert re.search(r'(?<!\d)%d %ss?\b' % (v, k), parts[0]), "%d %s not in %r" % (v, k, parts[0])
	shows(parts[2], R.Z, 'Z')
	shows(parts[4], R.dZ, 'dZ')
	assert np.array_equal(np.asarray(R.Z), np.asarray(sifs.mk(c).Z)), "modified"
	ctx.nontrivial(l > 0)
	ctx.label('realization' if real else 'SIF')

@check.part(st.tuples(specs(), st.one_of(st.none(), st.integers(1, 10 ** 6), st.sampled_from([0, 1, 16777215]))), quick=250, thorough=4000, rule="text of a specification: type, sampling frequency, and each band with its frequencies and gains, in order; non-trivial: at least 3 bands")
def specification_text(d, ctx):
	c, seed = d
	g = mkgab(c)
	if seed is not None:
		t = lambda a: tuple(a) if isinstance(a, list) else a
		g = Gabarit(c['Fs'], [tuple(c['F'][i]) for i in c['perm']], [t(c['A'][i]) for i in c['perm']], seed=seed)
		assert g.seed == seed
	before = gabstate(g)
	lines = [x for x in str(g).split('\n') if x.strip()]
	if seed is not None:
		assert numbers(lines[0]) == [seed], "seed %d not in %r" % (seed, lines[0])
		lines = lines[1:]
	assert kind(c['A']) in lines[0], "type not in %r" % lines[0]
	if c['Fs']:
		assert numbers(lines[0]) == [c['Fs']], "sampling frequency in %r" % lines[0]
	assert len(lines) == 1 + len(c['A']), "%d bands in %r" % (len(lines) - 1, str(g))
	Fs = c['Fs'] or 2
	for s, Fb, A in zip(lines[1:], c['F'], c['A']):
		got = numbers(s)
		ref = [Fb[0], Fs / 2. if Fb[1] is None else Fb[1]] + (sorted(A) if isinstance(A, list) else [A])
		assert len(got) == len(ref) and all(abs(x - y) <= 1e-9 * max(1e-3, abs(y)) for x, y in zip(got, ref)), "%r instead of %r" % (s, ref)
		assert ('pass' if isinstance(A, list) else 'stop') in s.lower(), s
	assert gabstate(g) == before
	ctx.nontrivial(len(c['A']) > 2)
	ctx.label(kind(c['A']), 'no seed' if seed is None else 'seed 0' if seed == 0 else 'seed')

@st.composite
def named(draw):
	m, n = draw(st.integers(1, 4)), draw(st.integers(1, 4))
	return dict(H=draw(transfer_function(n=(1, 4))), name=draw(st.text('abcXYZ_-0123 ', min_size=1, max_size=12)), M=draw(mat(dyads(100, 60), m, n)))

@check.part(named(), quick=150, thorough=2000, rule="text of a filter (its name), of a multiple-precision matrix (its values); non-trivial: rectangular matrix")
def filter_and_matrix(c, ctx):
	f = Filter(tf=mk_dTF(c['H']), name=c['name'])
	assert repr(f) == c['name'] and str(f) == c['name'] and f.name == c['name'], "name %r instead of %r" % (repr(f), c['name'])
	with mpmath.workprec(300):
		M = mpmath.matrix([[oracle.dyad(*x) for x in r] for r in c['M']])
	ref = [[float(oracle.dyad(*x)) for x in r] for r in c['M']]
	P = MPFMatrix(M)
	rows = [x for x in str(P).split('\n') if x.strip()]
	assert len(rows) == len(ref), "%d rows instead of %d" % (len(rows), len(ref))
	for s, r in zip(rows, ref):
		shows(s, r, 'matrix')
	ctx.nontrivial(len(ref) != len(ref[0]))
	ctx.label('%dx%d' % (len(ref), len(ref[0])))
