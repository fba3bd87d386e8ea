# coding: utf-8
"""C17: systems from the inputs to the internal variables, and from the round-off errors to the outputs"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np
from oracle import *
import systems as sy, sifs
from fixif.SIF import SIF

check = Check('C17', assumptions=["J is unit lower triangular, entries lower than 16"])

anysif = st.one_of(sifs.sif(), sifs.sif(stable=False), sifs.sif(n=(0, 2), stable=False), sifs.sif(l=(2, 5), n=(2, 5), stable=False))
val = st.integers(-64, 64).map(lambda k: k / 64.)

def bounds(c, u, err=None):
	"""magnitudes of t, x, x+, y (doubles), to scale the tolerance"""
	l, n, p, q = c['size']
	a = {k: np.abs(np.array(c[k], dtype=float).reshape(sifs.shapes(c)[k])) for k in sifs.NAMES}
	m = sifs.invJ_mag(c)
	iJ = m * np.ones((l, l))
	T = len(u[0]) if u is not None else len(err[0])
	U = np.abs(np.array(u if u is not None else [[0.] * T] * q, dtype=float))
	E = np.abs(np.array(err if err is not None else [[0.] * T] * (l + n + p), dtype=float))
	x = np.zeros(n)
	ts, xs, xn, ys = [], [], [], []
	for k in range(T):
		t = iJ @ (a['M'] @ x + a['N'] @ U[:, k] + E[:l, k])
		xp = a['K'] @ t + a['P'] @ x + a['Q'] @ U[:, k] + E[l:l + n, k]
		y = a['L'] @ t + a['R'] @ x + a['S'] @ U[:, k] + E[l + n:, k]
		ts.append(t); xs.append(x); xn.append(xp); ys.append(y)
		x = xp
	return [np.array(v).T for v in (ts, xs, xn, ys)]

def compare(S, u, ref, mag, what):
	"""the state-space S driven by u"""
	got = sy.sim_ss(S, u)
	mag = np.maximum.accumulate(mag, axis=1) if mag.size else mag
	sifs.close([[float(x) for x in r] for r in got], ref, mag, 1e-12, what)


@st.composite
def cases(draw):
	c = draw(anysif)
	l, n, p, q = c['size']
	T = draw(st.integers(1, 6))
	return dict(c=c, u=draw(mat(val, q, T)), e=draw(mat(val, l + n + p, T)))

@check.part(cases(), quick=1200, thorough=12000, shards=(3, 8), rule="SIF and input sequences; non-trivial: l>=1, n>=2 and at least 3 samples")
def internal_variables(d, ctx):
	c, u = d['c'], d['u']
	l, n, p, q = c['size']
	R = sifs.mk(c)
	t, x, xn, y = sifs.run(c, u)
	mt, mx, mxn, my = bounds(c, u)
	compare(R.Hu, u, t + xn + y, np.vstack([mt, mxn, my]), 'Hu')
	compare(R.Hzeta, u, t + x + y, np.vstack([mt, mx, my]), 'Hzeta')
	assert R.Hu is R.Hu or np.array_equal(R.Hu.A, R.AZ)
	ctx.nontrivial(l >= 1 and n >= 2 and len(u[0]) >= 3)
	ctx.label('l=%d' % l)


@check.part(cases(), quick=1200, thorough=12000, shards=(3, 8), rule="SIF and sequences of errors added on each line, the inputs being known or not; non-trivial: l>=1, n>=2 and at least 3 samples")
def roundoff_errors(d, ctx):
	c, u, e = d['c'], d['u'], d['e']
	l, n, p, q = c['size']
	R = sifs.mk(c)
	y, ye = sifs.run(c, u)[3], sifs.run(c, u, err=e)[3]
	dy = subF(ye, y)
	my = bounds(c, None, e)[3]
	compare(R.Hepsilon, e, dy, my, 'Hepsilon')
	D = R.computeDeltaSIF()
	assert tuple(D.size) == (l, n, p, l + n + p), "size of the error SIF %s" % (D.size,)
	compare(D.dSS, e, dy, my, 'error SIF')
	sifs.close(D.simulate(np.matrix(e)), dy, np.maximum.accumulate(my, axis=1), 1e-12, 'simulation of the error SIF')
	# the error SIF has the same algorithm (same lines), with the errors as inputs
	for k in 'JKLMPR':
		assert np.array_equal(getattr(D, k), getattr(R, k)), "%s of the error SIF" % k
	ctx.nontrivial(l >= 1 and n >= 2 and len(u[0]) >= 3)
	ctx.label('l=%d' % l)
