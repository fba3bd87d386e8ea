# coding: utf-8
"""C20: every structure realizes the filter it is given"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, re
import slycot_stub
from fractions import Fraction as F
from oracle import *
import systems as sy, sifs
from fixif.LTI import Filter
from fixif.Structures import DFI, DFII, State_Space, rhoDFII, LGS, LCW
from fixif.Structures.Structure import makeARealization

check = Check('C20', assumptions=["filters of order at least 1; stable ones (poles of modulus lower than 0.875) for the structures that only accept them; l2 scalings: filters whose canonical states are all reached",
	"tolerances: 1e-10 (direct forms, state-spaces), 1e-8 (rho), 1e-9, 1e-8, 1e-6, 1e-5 for LGS and LCW of order 2, 3, 4, 5 (interpolation in double precision on random points: best of 6 realizations, any of them within 1e-4), relatively to the magnitude of the computations"])

OPTIONS = ([['DFI', dict(nbSum=s, transposed=t)] for s in (1, 2) for t in (False, True)] + [['DFII', dict(transposed=t)] for t in (False, True)]
	+ [['dSS', dict(form=f)] for f in (None, 'ctrl', 'obs')])
RHO = [['rhoDFII', dict(transposed=t, equiv_dSS=e, scaling=s)] for t in (True, False) for e in (False, True) for s in (None, 'l2', 'l2-relaxed')]
LG = [[n, dict(transposed=t)] for n in ('LGS', 'LCW') for t in (False, True)]
STRUCT = dict(DFI=DFI, DFII=DFII, dSS=State_Space, rhoDFII=rhoDFII, LGS=LGS, LCW=LCW)

@st.composite
def siso_filter(draw, n=(1, 6), stable=True):
	if draw(st.integers(0, 2)):
		return dict(draw(sy.transfer_function(n=n, stable=stable, a0=True)), type=draw(st.sampled_from(['numden', 'tf'])))
	return dict(draw(sy.state_space(n=n, p=(1, 1), q=(1, 1), stable=True)), type=draw(st.sampled_from(['ss', 'ABCD'])))

def make_filter(f, stable=True):
	if f['type'] == 'numden':
		return Filter(num=f['num'], den=f['den'], stable=stable)
	if f['type'] == 'tf':
		return Filter(tf=sy.mk_dTF(f), stable=stable)
	if f['type'] == 'ss':
		return Filter(ss=sy.mk_dSS(f), stable=stable)
	return Filter(**dict(zip('ABCD', sy.npS(f))), stable=stable)

def reference(f, N):
	if 'num' in f:
		return [[[x]] for x in sy.imp_tf(f['num'], f['den'], N)]
	return sy.imp_ss(f, N)

def check_realization(R, f, rel, N=None):
	l, n, p, q = R.size
	J = np.asarray(R.J)
	assert np.array_equal(np.diag(J), np.ones(l)) and not np.triu(J, 1).any(), "J is not unit lower triangular: %s" % J.tolist()
	for k, (a, b) in sifs.shapes(dict(size=[l, n, p, q])).items():
		assert getattr(R, k).shape == (a, b), "%s has the shape %s" % (k, getattr(R, k).shape)
	N = N or 2 * n + 3
	c = {k: np.asarray(getattr(R, k)).tolist() for k in sifs.NAMES}
	c['size'] = [l, n, p, q]
	ref = reference(f, N)
	mag = sifs.mag(c, N)
	tot = max(float(x.max()) for x in mag)
	if 'num' not in f:
		tot = max([tot] + [float(x.max()) for x in sy.mag_ss(f, N)]) + max(abs(x) for r in f['B'] for x in r) * max(abs(x) for r in f['C'] for x in r) + 1
	assert np.isfinite(np.asarray(R.Z)).all(), "infinite or NaN coefficients"
	got = sy.imp_ss(sifs.azdz(c), N)
	sy.same_response(got, ref, [tot] * N, rel, R.structureName)
	# and the state-space of the realization
	got = sy.imp_ss(R.dSS, N)
	sy.same_response(got, ref, [tot] * N, rel, R.structureName + ' (dSS)')
	return tot

@st.composite
def direct(draw):
	return dict(u=draw(st.lists(st.integers(-8, 8).map(lambda k: k / 8.), min_size=6, max_size=6)), f=draw(siso_filter(stable=False)), s=draw(st.sampled_from(OPTIONS)), by=draw(st.sampled_from(['make', 'call', 'name'])), default=draw(st.booleans()))

def check_surnames(R, u):
	"""the states and intermediate variables are the delayed signals u, y or v that they are called"""
	c = {k: np.asarray(getattr(R, k)).tolist() for k in sifs.NAMES}
	c['size'] = list(R.size)
	t, x, _, y = sifs.run(c, [u])
	M = max([abs(v) for r in t + x + y for v in r] + [F(1)])
	for j, v in enumerate(getattr(R, '_varNameX', ())):
		nm = v.toStr(withTime=True, withSurname=True)
		m = re.match(r'^([uyv])\(k-(\d+)\)$', nm)
		assert m, "name of the state %d: %r" % (j, nm)
		s = {'u': [F(z) for z in u], 'y': y[0], 'v': t[0]}[m.group(1)]
		i = int(m.group(2))
		for k in range(len(u)):
			assert abs(x[j][k] - (s[k - i] if k >= i else 0)) <= M * F(1, 10 ** 12), "%s: the state %d is %s but is not its value at time %d" % (R.structureName, j + 1, nm, k)

def build(d, F):
	name, opt = d['s']
	if d['by'] == 'make':
		return STRUCT[name].makeRealization(F, **opt)
	if d['by'] == 'call':
		return STRUCT[name](F, **opt)
	return makeARealization(F, name, **opt)

@check.part(direct(), quick=500, thorough=8000, shards=(2, 8), rule="single-input single-output filters (transfer functions, not normalised, strictly proper, unstable, or state-spaces), direct forms I and II and state-spaces with all their options; non-trivial: order >= 2")
def direct_forms_and_state_spaces(d, ctx):
	f = d['f']
	F_ = make_filter(f, stable=None)
	name, opt = d['s']
	n = F_.order
	assert STRUCT[name].canAcceptFilter(F_, **opt)
	if 'num' not in f:
		# conversion in transfer function: amplified by the cancellations (see C07)
		nA = max(1., np.abs(np.array(f['A'])).sum(axis=1).max())
		rel = 1e-11 * nA ** (3 * n)
		if rel > 1e-4:
			raise Invalid()
	else:
		rel = 1e-10
	R = build(d, F_)
	assert R.filter is F_
	check_realization(R, f, rel)
	if 'num' in f and name in ('DFI', 'DFII'):
		# the coefficients are exactly the ones of the transfer function
		a0 = np.asarray(F_.dTF.den).flatten()
		b = np.asarray(F_.dTF.num).flatten()
		Z = np.asarray(R.Z).flatten()
		keep = lambda v: sorted(float(x) for x in v if x not in (0, 1, -1))
		assert keep(Z) == keep(list(b) + [-x for x in a0[1:]]), "coefficients %s instead of %s" % (keep(Z), keep(list(b) + [-x for x in a0[1:]]))
		assert R.n == (2 * n if name == 'DFI' else n), "%d states" % R.n
		assert R.l == (opt['nbSum'] if name == 'DFI' else 1), "%d intermediate variables" % R.l
	if name in ('DFI', 'DFII') and not opt['transposed']:
		check_surnames(R, d['u'])
	if name == 'dSS' and opt['form'] is not None:
		# the canonical form asked for
		S = F_.dTF.to_dSS(opt['form'])
		assert all(np.array_equal(np.asarray(getattr(R, k)), np.asarray(m)) for k, m in zip('PQRS', (S.A, S.B, S.C, S.D))), "the coefficients are not the ones of the form %s" % opt['form']
	if name == 'dSS':
		assert R.l == 0 and R.n == (len(f['A']) if 'A' in f else n)
	ctx.nontrivial(n >= 2)
	ctx.label(name, ','.join('%s=%s' % x for x in sorted(opt.items())), f['type'])


@st.composite
def rho(draw):
	return dict(f=draw(siso_filter()), s=draw(st.sampled_from(RHO)), by=draw(st.sampled_from(['make', 'call', 'name'])))

@check.part(rho(), quick=300, thorough=5000, shards=(2, 8), rule="stable filters, rho direct form II with all its options (default gamma); non-trivial: order >= 2")
def rho_forms(d, ctx):
	f, (name, opt) = d['f'], d['s']
	F_ = make_filter(f)
	n = F_.order
	assert rhoDFII.canAcceptFilter(F_, **opt)
	rel = 1e-8
	if 'num' not in f:
		nA = max(1., np.abs(np.array(f['A'])).sum(axis=1).max())
		rel = 1e-10 * nA ** (3 * n)
		if rel > 1e-4:
			raise Invalid()
	if opt['scaling']:
		# all the states have to be reached: no cancellation between numerator and denominator
		num, den = np.asarray(F_.dTF.num).flatten(), np.asarray(F_.dTF.den).flatten()
		W = sy.mk_dSS(dict(zip('ABCD', [m.tolist() for m in rho_states(num, den)]))).Wc
		if min(np.diag(W)) <= max(1e-8 * max(np.diag(W)), 1e-14):
			raise Invalid()
	R = build(d, F_)
	check_realization(R, f, rel)
	assert R.n == n and R.l == (0 if opt['equiv_dSS'] else R.l)
	ctx.nontrivial(n >= 2)
	ctx.label(','.join('%s=%s' % x for x in sorted(opt.items())))

def rho_states(num, den):
	"""state-space of the rho direct form II transposed, with gamma=1 and Delta=1 (delta operator), in rational arithmetic"""
	n = len(den) - 1
	def shift(v):
		# coefficients in the basis (z-1)^k: Taylor expansion at z=1
		v = [F(float(x)) for x in v]
		out = []
		while v:
			q, r = [], F(0)
			for x in v:
				r = r + x
				q.append(r)
			out.append(q.pop())
			v = q
		return out[::-1]        # highest degree first
	a, b = shift(den), shift(num)
	a, b = [float(x / a[0]) for x in a], [float(x / a[0]) for x in b]
	A = np.eye(n) + np.diag(np.ones(n - 1), 1)
	A[:, 0] -= a[1:]
	B = np.array([[b[i] - b[0] * a[i]] for i in range(1, n + 1)])
	C = np.zeros((1, n)); C[0, 0] = 1
	return A, B, C, np.array([[b[0]]])


@st.composite
def lg(draw):
	f = draw(siso_filter(n=(2, 5)))
	if sy.chance(draw, 6):
		# order 2 or 3, with a pole close to 1 or -1
		H = draw(st.one_of(sy.transfer_function(n=(1, 2), radius=12), sy.transfer_function(n=(1, 1), radius=15)))
		a = draw(st.sampled_from([31, -31, -31])) / 32. if draw(st.booleans()) else draw(st.sampled_from([63, -63, -63])) / 64.
		f = dict(num=H['num'] + [draw(sy.small)], den=[float(x) for x in sy.polymulF([F(x) for x in H['den']], [F(1), F(-a)])], type='numden')
	return dict(f=f, s=draw(st.sampled_from(LG)), by=draw(st.sampled_from(['make', 'call', 'name'])))

@check.part(lg(), quick=250, thorough=3000, shards=(2, 8), rule="stable filters, LGS and LCW; non-trivial: order >= 3")
def lgs_lcw(d, ctx):
	f, (name, opt) = d['f'], d['s']
	F_ = make_filter(f)
	n = F_.order
	assert STRUCT[name].canAcceptFilter(F_, **opt)
	if 'num' not in f:
		nA = max(1., np.abs(np.array(f['A'])).sum(axis=1).max())
		if nA > 3:
			raise Invalid()
	N = 2 * n + 3
	ref = reference(f, N)
	scale = float(max(abs(x[0][0]) for x in ref))
	tol = {2: 1e-9, 3: 1e-8, 4: 1e-6, 5: 1e-5}[n] * (scale + 1e-3)
	err = []
	for _ in range(6):
		# (random interpolation points)
		err.append(max(lg_error(build(d, F_), n, N, ref, scale)))
		if err[-1] <= tol:
			break
	assert min(err) <= tol, "%s: error of %g on the impulse response" % (name, min(err))
	ctx.nontrivial(n >= 3)
	ctx.label(name, 'n=%d' % n, 'tries: %d' % len(err))

def lg_error(R, n, N, ref, scale):
	l = R.l
	J = np.asarray(R.J)
	assert np.array_equal(np.diag(J), np.ones(l)) and not np.triu(J, 1).any(), "J is not unit lower triangular"
	assert tuple(R.size) == (l, n, 1, 1)
	# the implicit equations, in doubles
	J, K, L, M, N_, P, Q, R_, S = [np.asarray(getattr(R, k)) for k in sifs.NAMES]
	X = np.linalg.solve(J, np.c_[M, N_])
	A, B, C, D = K @ X[:, :n] + P, K @ X[:, n:] + Q, L @ X[:, :n] + R_, L @ X[:, n:] + S
	for S, what in ((dict(A=A.tolist(), B=B.tolist(), C=C.tolist(), D=D.tolist()), ''), (R.dSS, ' (dSS)')):
		h = sy.imp_ss(S, N)
		sy.same_response(h, ref, [scale + 1e-3] * N, 1e-4, R.structureName + what)
		yield max(abs(float(x[0][0] - y[0][0])) for x, y in zip(h, ref))


@st.composite
def mimo(draw):
	S = draw(sy.state_space(n=(1, 6), stable=draw(st.booleans())))
	return dict(S, type=draw(st.sampled_from(['ss', 'ABCD'])))

@check.part(mimo(), quick=200, thorough=2000, rule="multi-variable state-spaces: the direct state-space accepts them, the others reject them; non-trivial: several inputs or outputs")
def multivariable(f, ctx):
	F_ = make_filter(f, stable=True)
	p, q = len(f['D']), len(f['D'][0])
	siso = p == q == 1
	n = len(f['A'])
	for name, opts in (('DFI', {}), ('DFII', {}), ('rhoDFII', {}), ('LGS', {}), ('LCW', {}), ('dSS', dict(form='ctrl')), ('dSS', dict(form='obs'))):
		assert bool(STRUCT[name].canAcceptFilter(F_, **opts)) == (siso and (n >= 2 or name not in ('LGS', 'LCW'))), "%s accepts a %dx%d filter" % (name, p, q)
	unst = make_filter(f, stable=False)
	for name in ('rhoDFII', 'LGS', 'LCW'):
		assert not STRUCT[name].canAcceptFilter(unst), "%s accepts an unstable filter" % name
	assert State_Space.canAcceptFilter(F_) and State_Space.canAcceptFilter(F_, form=None)
	R = State_Space(F_)
	assert tuple(R.size) == (0, n, p, q), "size %s" % (R.size,)
	check_realization(R, f, 1e-12)
	for k, m in zip('PQRS', 'ABCD'):
		assert np.array_equal(np.asarray(getattr(R, k)), np.array(f[m]).reshape(getattr(R, k).shape)), "%s is not %s" % (k, m)
	if not siso:
		for name in ('DFI', 'DFII', 'rhoDFII'):
			try:
				STRUCT[name](F_)
			except ValueError:
				continue
			raise AssertionError("%s of a multi-variable filter" % name)
	ctx.nontrivial(not siso)


@check.part(st.tuples(sy.state_space(n=(1, 6)), st.sampled_from(['call', 'make'])).map(list), quick=200, thorough=2000, rule="stable state-spaces, balanced form (with the stand-in of slycot); non-trivial: order >= 2")
def balanced_state_space(d, ctx):
	f, by = d
	with slycot_stub.installed():
		F_ = make_filter(dict(f, type='ss'))
		assert State_Space.canAcceptFilter(F_, form='balanced')
		assert not State_Space.canAcceptFilter(make_filter(dict(f, type='ss'), stable=False), form='balanced')
		try:
			B = F_.dSS.balanced()
		except ValueError:
			raise Invalid()        # (null system)
		R = build(dict(s=['dSS', dict(form='balanced')], by=by), F_)
	# (the balanced systems are checked by C08)
	assert tuple(R.size) == (0, B.n, B.p, B.q), "size %s" % (R.size,)
	for k, m in zip('PQRS', (B.A, B.B, B.C, B.D)):
		assert np.allclose(np.asarray(getattr(R, k)), np.asarray(m), rtol=1e-9, atol=0), "%s is not the one of the balanced state-space" % k
	ctx.nontrivial(B.n >= 2)


def lwdf():
	"""the LWDF structure (it exists only when Matlab is installed)"""
	import importlib
	module = importlib.import_module('fixif.Structures.LWDF.LWDF')
	if not hasattr(module, 'LWDF'):
		importlib.reload(module)
	return module.LWDF

@check.part(st.tuples(siso_filter(), sy.state_space(n=(1, 5), p=(1, 2), q=(1, 2), gains=False), st.sampled_from([0, 0, 1]), st.sampled_from(['make', 'call', 'name'])).map(list), quick=200, thorough=3000,
	rule="lattice wave digital filters: filters of odd order with one input and one output are accepted (and those only), the numerator and denominator are given to Matlab (stand-in of the engine, that answers with a SIF) and its SIF becomes the realization; non-trivial: accepted, order >= 3")
def lattice_wave(c, ctx):
	import matlab_stub
	f = dict(c[1], type='ss') if c[2] else c[0]
	flt = make_filter(f)
	with matlab_stub.installed():
		S = lwdf()
		accepted = bool(S.canAcceptFilter(flt))
		siso = 'num' in f or (len(f['C']), len(f['B'][0])) == (1, 1)
		assert accepted == (siso and flt.order % 2 == 1), "filter of order %d with %d inputs and %d outputs %s" % (flt.order, flt.q, flt.p, 'accepted' if accepted else 'refused')
		if accepted:
			R = S.makeRealization(flt) if c[3] == 'make' else S(flt) if c[3] == 'call' else makeARealization(flt, 'LWDF')
			R2 = S(flt)
			assert np.array_equal(R.Z, R2.Z)
			assert matlab_stub.Engine.started == 1, "%d Matlab engines are started" % matlab_stub.Engine.started
			assert type(R).__name__ == 'Realization' and R.filter is flt
			check_realization(R, f, 1e-10 if 'num' in f else 1e-6)
	ctx.nontrivial(accepted and flt.order >= 3)
	ctx.label('accepted' if accepted else 'refused', 'order %d' % flt.order)
