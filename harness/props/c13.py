# coding: utf-8
"""C13: Butterworth and elliptic filters"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np
from fixif.LTI import Butter, Elliptic
import systems as sy

check = Check('C13', assumptions=["gains compared with a tolerance that follows the conditioning of the transfer function form (1e-9 + 1e-13.sum|coefficients|/|denominator|); the filters for which it is larger than 1e-2 somewhere they are checked are rejected (high orders with very narrow bands)",
	"the reference response of the Butterworth filters is the one of the analog prototype after the bilinear transform (definition of the digital Butterworth filter)"])

def response(f, w):
	"""(gain, tolerance)"""
	z = np.exp(-1j * np.pi * np.asarray(w, dtype=float))
	num, den = np.array(f.dTF.num).flatten()[::-1], np.array(f.dTF.den).flatten()[::-1]
	d = np.abs(np.polyval(den, z))
	d = np.maximum(d, 1e-300)
	g = np.abs(np.polyval(num, z)) / d
	return g, 1e-9 + 1e-13 * (np.abs(num).sum() / d + np.abs(den).sum() / d * g)

@st.composite
def spec(draw):
	btype = draw(st.sampled_from([None, 'low', 'lowpass', 'high', 'highpass', 'bandpass', 'bandstop']))
	band = btype in ('bandpass', 'bandstop')
	k = draw(st.integers(0, 3))
	if k < 3:
		w1 = draw(st.integers(10, 60)) / 100.
		return dict(btype=btype, n=draw(st.integers(1, 4 if band else 8)), Wn=[w1, w1 + draw(st.integers(4, 30)) / 100.] if band else draw(st.integers(10, 90)) / 100.)
	# narrow bands, close to the ends
	if band:
		w1 = draw(st.sampled_from([0.01, 0.05, 0.3, 0.5, 0.9, 0.97]))
		return dict(btype=btype, n=draw(st.integers(1, 3)), Wn=[w1, w1 + draw(st.sampled_from([0.005, 0.01, 0.02, 0.4]) if w1 < 0.55 else st.sampled_from([0.005, 0.01, 0.02]))])
	return dict(btype=btype, n=draw(st.integers(1, 6)), Wn=draw(st.one_of(st.sampled_from([0.005, 0.02, 0.05, 0.95, 0.98, 0.995, 0.5]), st.floats(0.01, 0.99))))

def poles_inside(f):
	r = max(abs(np.roots(np.array(f.dTF.den).flatten())))
	assert r < 1, "pole of modulus %r" % r
	assert f.isStable()

def prototype(c, w):
	"""frequency of the low-pass prototype (cut at 1), in absolute value"""
	t = np.tan(np.pi * np.asarray(w, dtype=float) / 2)
	k = c['btype'] or 'low'
	with np.errstate(divide='ignore', invalid='ignore'):
		if k.startswith('low'):
			r = t / np.tan(np.pi * c['Wn'] / 2)
		elif k.startswith('high'):
			r = np.tan(np.pi * c['Wn'] / 2) / t
		else:
			a, b = np.tan(np.pi * np.array(c['Wn']) / 2)
			r = (t * t - a * b) / (t * (b - a))
			if k == 'bandstop':
				r = 1 / r
	return np.abs(r)

def grid(c):
	W = c['Wn'] if isinstance(c['Wn'], list) else [c['Wn']]
	w = [np.linspace(0, 1, 401)] + [np.clip(x + np.linspace(-1, 1, 41) * min(x, 1 - x), 0, 1) for x in W]
	if len(W) == 2:
		w.append(np.linspace(W[0], W[1], 101))
		w.append([2 / np.pi * np.arctan(np.sqrt(np.prod(np.tan(np.pi * np.array(W) / 2))))])		# centre of the band
	return np.unique(np.concatenate(w))

def usable(tol, where):
	if tol[where].max() > 1e-2:
		raise Invalid()

@check.part(spec(), quick=2500, thorough=20000, shards=(2, 4), rule="all types, orders and cut frequencies (also very low, very high, and narrow bands); non-trivial: order >= 2")
def butterworth(c, ctx):
	f = Butter(c['n'], c['Wn']) if c['btype'] is None else Butter(c['n'], c['Wn'], c['btype'])
	k = c['btype'] or 'low'
	band = isinstance(c['Wn'], list)
	assert f.order == c['n'] * (2 if band else 1)
	assert (f.n, f.Wn, f.btype) == (c['n'], c['Wn'], k) and f.isButter() and f.isSISO()
	w = grid(c)
	g, tol = response(f, w)
	usable(tol, slice(None))
	poles_inside(f)
	# -3dB at the cut frequencies
	gc, tc = response(f, c['Wn'] if band else [c['Wn']])
	assert np.all(np.abs(gc - 0.5 ** 0.5) <= tc), "gain %s at the cut frequencies %s (tolerance %s)" % (gc, c['Wn'], tc)
	x = prototype(c, w)
	with np.errstate(over='ignore'):
		ref = 1 / np.sqrt(1 + x ** (2 * c['n']))
	bad = np.abs(g - ref) > tol
	assert not bad.any(), "gain %r instead of %r at the frequency %r" % (g[bad][0], ref[bad][0], w[bad][0])
	ctx.nontrivial(c['n'] >= 2)
	ctx.label(k, 'n=%d' % c['n'], 'narrow' if tol.max() > 1e-8 else '')


@st.composite
def elliptic_spec(draw):
	rp = draw(st.one_of(st.integers(1, 60).map(lambda k: k / 10.), st.sampled_from([0.001, 0.01, 0.05, 10., 20.])))
	return dict(draw(spec()), rp=rp, rs=rp + draw(st.one_of(st.integers(10, 60).map(float), st.sampled_from([0.5, 1., 3., 70.]))))

@check.part(elliptic_spec(), quick=2500, thorough=20000, shards=(2, 4), rule="all types, orders, cut frequencies (also very low, very high, and narrow bands), ripples (from 0.001 to 20 dB) and attenuations (from 0.5 to 70 dB more); non-trivial: order >= 2")
def elliptic(c, ctx):
	if c['rs'] - c['rp'] < 5 and c['n'] > 4:
		raise Invalid()		# the series for the elliptic functions are not precise enough
	f = Elliptic(c['n'], c['rp'], c['rs'], c['Wn']) if c['btype'] is None else Elliptic(c['n'], c['rp'], c['rs'], c['Wn'], c['btype'])
	k = c['btype'] or 'low'
	band = isinstance(c['Wn'], list)
	assert f.order == c['n'] * (2 if band else 1)
	assert f.details() == {"n": c['n'], "ripple passband": c['rp'], "attenuation stopband": c['rs'], "frequency": c['Wn'], "type": k}
	assert not f.isButter() and f.isSISO()
	lo, st_ = 10 ** (-c['rp'] / 20), 10 ** (-c['rs'] / 20)
	w = grid(c)
	g, tol = response(f, w)
	usable(tol, slice(None))
	te_ = 5e-6 if c['rs'] - c['rp'] < 5 or c['rp'] > 9 else 2e-7        # (series for the elliptic functions)
	tol = tol + te_
	poles_inside(f)
	gc, tc = response(f, c['Wn'] if band else [c['Wn']])
	assert np.all(np.abs(gc - lo) <= tc + te_), "gain %s (instead of -%g dB) at the frequency %r" % (gc, c['rp'], c['Wn'])
	x = prototype(c, w)
	assert np.all(g <= 1 + tol), "gain %r" % g.max()
	inside = x < 1
	bad = inside & (g < lo - tol)
	assert not bad.any(), "more than %g dB of ripple in the pass band: gain %r at the frequency %r" % (c['rp'], g[bad][:1], w[bad][:1])
	assert np.all(g[x > 1] <= lo + tol[x > 1])
	# the gains at the centre of the pass band and at the far end of the stop band, of the prototype
	even = c['n'] % 2 == 0
	end, far = (lo, st_) if even else (1., 0.)
	for where, v in (((0 if k.startswith('low') or k == 'bandstop' else 1 if k.startswith('high') else None), end), ((1 if k.startswith('low') else 0), far if k != 'bandstop' else end)):
		if where is not None:
			ge, te = response(f, [where])
			assert abs(ge[0] - v) <= te[0] + te_, "gain %r instead of %r at the frequency %r" % (ge[0], v, where)
	# equiripple: once the attenuation is reached, it is never less again (up to the end of the stop band)
	o = np.argsort(x)
	go, to = g[o], tol[o]
	if c['n'] >= 2:
		reached = (go <= st_ + to) & (to < (lo - st_) / 10)
		i = np.argmax(reached)
		assert reached.any() and np.all(go[i:] <= st_ + to[i:]), "the attenuation is less than %g dB in the stop band" % c['rs']
	ctx.nontrivial(c['n'] >= 2)
	ctx.label(k, 'n=%d' % c['n'], 'narrow' if tol.max() > 2e-7 else '', 'close' if c['rs'] - c['rp'] < 5 else '')


import props.c12 as c12
check.part(c12.designs(), quick=300, thorough=3000, rule="random Butterworth and elliptic filters (all the ranges of the parameters) and frequency specifications, with or without seed; non-trivial: with a seed, order >= 2")(c12.random_designs)
