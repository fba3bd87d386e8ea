# coding: utf-8
"""C07: conversions between transfer functions and state-spaces"""
from core import Check
from gens import *
from hypothesis import strategies as st
import numpy as np
from fractions import Fraction as F
import systems as sy
from oracle import matF, mulF, rankF
from fixif.LTI import dTF, dSS

check = Check('C07', assumptions=["impulse responses are compared on 2n+4 samples, with a tolerance relative to the scale of the rounding errors (|C||A|^k|B|, or of the coefficients for the state-space to transfer function conversions)"])

@check.part(st.tuples(st.one_of(sy.transfer_function(n=(1, 7), stable=False, a0=True), sy.transfer_function(n=(1, 7), a0=True)), st.integers(0, 2), st.sampled_from([None, 'ctrl', 'obs'])).map(lambda t: dict(t[0], cut=t[1], form=t[2])),
	quick=1200, thorough=12000, shards=(2, 8), rule="transfer functions of order 1..7, stable or not; non-trivial: order >= 2 and a numerator that is not proportional to the denominator")
def tf_to_ss(c, ctx):
	num, den = c['num'], c['den']
	if c['cut'] == 1 and len(num) > 2:
		num = num[:-1]
	if c['cut'] == 2 and len(den) > 2:
		den = den[:-1]
	H = dTF(num, den)
	n = H.order
	S = H.to_dSS() if c['form'] is None else H.to_dSS(c['form'])
	assert isinstance(S, dSS) and (S.p, S.q) == (1, 1)
	assert S.n == n, "%d states instead of %d" % (S.n, n)
	N = 2 * n + 4
	h = [[[x]] for x in sy.imp_tf(num, den, N)]
	# componentwise: rounding errors on the coefficients a_i/a_0 and (b_i - b_0.a_i)/a_0 only
	ab = lambda v: [abs(x) / abs(den[0]) for x in v] + [0.] * (n + 1 - len(v))
	b, a = ab(num), ab(den)
	mag = sy.imp_tf([b[0]] + [b[i] + b[0] * a[i] for i in range(1, n + 1)], [1.] + [-x for x in a[1:]], N)
	sy.same_response(sy.imp_ss(S, N), h, [[[float(x)]] for x in mag], 1e-13, 'to_dSS(%s)' % c['form'])
	# the canonical forms are controllable or observable, also when numerator and denominator have common factors
	A = matF(S.A)
	V = [matF(S.B)] if c['form'] != 'obs' else [[[x] for x in matF(S.C)[0]]]
	if c['form'] == 'obs':
		A = [list(r) for r in zip(*A)]
	for _ in range(n - 1):
		V.append(mulF(A, V[-1]))
	assert rankF([[v[i][0] for v in V] for i in range(n)]) == n, "the form %s is not %s" % (c['form'], 'observable' if c['form'] == 'obs' else 'controllable')
	ctx.nontrivial(n >= 2 and any(a * den[0] != b * num[0] for a, b in zip(num, den)))
	ctx.label('order %d' % n, c['form'], 'cut %d' % c['cut'])


@check.part(st.tuples(sy.transfer_function(n=(1, 4)), st.text('abcortl', max_size=5).filter(lambda s: s not in ('ctrl', 'obs'))).map(list), quick=50, thorough=300, rule="unknown form; non-trivial: all")
def unknown_form(c, ctx):
	ctx.nontrivial()
	try:
		sy.mk_dTF(c[0]).to_dSS(c[1])
	except ValueError:
		return
	raise AssertionError("the form %r is accepted" % c[1])


@check.part(sy.state_space(n=(1, 6), p=(1, 1), q=(1, 1), stable=False), quick=1000, thorough=10000, shards=(2, 4), rule="SISO state-spaces of order 1..6; non-trivial: n >= 2, B and C not null")
def ss_to_tf(c, ctx):
	S = sy.mk_dSS(c)
	H = S.to_dTF()
	n = S.n
	assert H.order == n, "order %d instead of %d" % (H.order, n)
	N = 2 * n + 4
	h = sy.imp_ss(c, N)
	g = sy.imp_tf(H.num, H.den, N)
	normA = max(sum(abs(x) for x in r) for r in c['A'])
	# (num is obtained as the difference of two characteristic polynomials, the gain being scaled)
	scale = float(max([abs(x) for r in c['B'] for x in r] + [0]) * max([abs(x) for r in c['C'] for x in r] + [0]) * n + abs(c['D'][0][0]))
	mag = [scale * (1 + normA) ** max(k, n) * 4 ** n for k in range(N)]
	sy.same_response([[[x]] for x in g], h, mag, 1e-12, 'to_dTF')
	ctx.nontrivial(n >= 2 and any(x for r in c['B'] for x in r) and any(x for r in c['C'] for x in r))
	ctx.label('n=%d' % n, c['kind'])


@check.part(sy.transfer_function(n=(1, 6)).flatmap(lambda h: st.sampled_from(['ctrl', 'obs']).map(lambda f: dict(h, form=f))), quick=800, thorough=8000, rule="stable transfer functions; non-trivial: order >= 2")
def round_trip(c, ctx):
	H = sy.mk_dTF(c)
	G = H.to_dSS(c['form']).to_dTF()
	for got, ref, name in ((G.num, H.num, 'num'), (G.den, H.den, 'den')):
		assert got.shape == ref.shape, "%s has %d coefficients instead of %d" % (name, got.shape[1], ref.shape[1])
		m = np.abs(ref).sum() if name == 'den' else np.abs(H.num[0, 0]) * np.abs(H.den).sum() + np.abs(H.num).sum()
		assert np.abs(got - ref).max() <= 1e-7 * m, "%s: %s instead of %s" % (name, got, ref)
	G.assert_close(H, 1e-6 * (1 + np.abs(H.num).sum() * 16))
	ctx.nontrivial(H.order >= 2)
	ctx.label('gain %d' % (20 * int(np.log2(np.abs(H.num).max()) // 20)))


@check.part(sy.state_space(n=(1, 4), p=(1, 3), q=(1, 3)).filter(lambda s: len(s['D']) > 1 or len(s['D'][0]) > 1), quick=60, thorough=300, rule="MIMO systems; non-trivial: all")
def mimo_rejected(c, ctx):
	ctx.nontrivial()
	try:
		sy.mk_dSS(c).to_dTF()
	except ValueError:
		return
	raise AssertionError("MIMO system converted in a transfer function")


@check.part(sy.state_space(n=(1, 5), stable=False), quick=150, thorough=2000, rule="state-spaces; non-trivial: MIMO")
def multiprecision(c, ctx):
	from oracle import matF
	S = sy.mk_dSS(c)
	M = S.to_dSSmp()
	for k in 'ABCD':
		assert matF(getattr(M, k)) == matF(c[k]), "to_dSSmp: %s is not the same" % k
	S2 = M.to_dSS()
	for k in 'ABCD':
		assert np.array_equal(np.matrix(getattr(S2, k)), np.matrix(c[k])), "to_dSS: %s is not the same" % k
	if S.p == 1 and S.q == 1:
		H = S.to_dTF()
		T = H.to_dTFmp()
		assert [r[0] for r in matF(T.num)] == sy.listF(H.num) and [r[0] for r in matF(T.den)] == sy.listF(H.den), "to_dTFmp"
		G = T.to_dTF()
		assert np.array_equal(G.num, H.num) and np.array_equal(G.den, H.den)
	ctx.nontrivial(S.p > 1 or S.q > 1)


# the multiple-precision conversions (those of C11)
import props.c11 as c11
check.part(c11.mp_tf, quick=500, thorough=8000, shards=(2, 4), rule="normalized multiple-precision transfer functions, any working precision; non-trivial: order >= 2 and coefficients that do not fit in the working precision, or different lengths")(c11.to_state_space)
check.part(c11.distinct(), quick=300, thorough=3000, shards=(2, 8), rule="SISO multiple-precision state-spaces with distinct real or complex poles, 64 to 300 bits; non-trivial: n >= 2, B and C not null")(c11.from_state_space)
