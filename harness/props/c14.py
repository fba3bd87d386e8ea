# coding: utf-8
"""C14: frequency specifications"""
from core import Check, Invalid
import matlab_stub
from gens import *
from hypothesis import strategies as st
import numpy as np
from fixif.LTI import Gabarit
from fixif.LTI.Gabarit import Band

check = Check('C14', assumptions=["the design is checked on a dense frequency grid (bands edges included) with a tolerance of 1e-3 dB in the pass band; Matlab is not installed: a stand-in designs the filters from the parameters given to its functions",
	"specifications with wide enough transitions (order of the resulting filter at most 10, so that the transfer function form is well conditioned)"])

half = st.integers(-20, 20).map(lambda k: k / 2.)

@st.composite
def specs(draw, types=('lowpass', 'highpass', 'bandpass', 'bandstop', 'multi')):
	t = draw(st.sampled_from(types))
	Fs = draw(st.sampled_from([None, None, None, 48000, 44100., 1000, 2, 44101, 11025, 7, 1e-3]))
	nb = {'lowpass': 2, 'highpass': 2, 'bandpass': 3, 'bandstop': 3}.get(t) or draw(st.integers(1, 5))
	# normalized edges in 1/100, increasing
	tr, wd = (14, 8) if nb == 3 else (12, 8)
	edges = []
	cur = draw(st.integers(8, 20))
	for i in range(nb - 1):
		a = cur
		b = a + draw(st.integers(tr, tr + 10))
		edges.append((a, b))
		cur = b + draw(st.integers(wd, wd + 6))
	if edges and edges[-1][1] > 95:
		edges = [(x * 90 // edges[-1][1], y * 90 // edges[-1][1]) for x, y in edges]
	g1 = draw(half)
	width = draw(st.integers(1, 12)) / 4.
	stop = g1 - width - draw(st.integers(3, 40))
	if draw(st.integers(0, 5)) == 5:
		# a stop band at exactly 0 dB
		g1, stop = g1 - stop, 0.
	pas = [g1, g1 - width] if draw(st.booleans()) else [g1 - width, g1]
	if t == 'multi':
		same = draw(st.booleans())
		amps = [draw(st.sampled_from([pas, stop])) if same else draw(st.one_of(half, st.tuples(half, half).map(list), st.just([0., 0.]), st.just(0.))) for _ in range(nb)]
	else:
		pat = {'lowpass': 'ps', 'highpass': 'sp', 'bandpass': 'sps', 'bandstop': 'psp'}[t]
		amps = [pas if x == 'p' else stop for x in pat]
	ws = []
	# the first band from 0 or close to 0, the last one up to the half of the sampling frequency (None or given) or close to it
	lo = draw(st.sampled_from([0, 0, 0, 1, 2.5]))
	end = draw(st.sampled_from([None, None, None, 100, 99, 97, 96]))
	for i in range(nb):
		hi = edges[i][0] if i < nb - 1 else end
		ws.append([lo, hi])
		lo = edges[i][1] if i < nb - 1 else None
	k = (Fs if Fs else 2) / 200.
	F = [[a * k, None if b is None else (Fs or 2) / 2. if b == 100 else b * k] for a, b in ws]
	return dict(type=t, Fs=Fs, F=F, A=amps, perm=draw(st.permutations(list(range(nb)))), w=[[a / 100., 1. if b is None else b / 100.] for a, b in ws])

def build(c):
	t = lambda a: tuple(a) if isinstance(a, list) else a
	return Gabarit(c['Fs'], [tuple(c['F'][i]) for i in c['perm']], [t(c['A'][i]) for i in c['perm']])

def kind(A):
	pat = ''.join('p' if isinstance(a, list) else 's' for a in A)
	return {'ps': 'lowpass', 'sp': 'highpass', 'sps': 'bandpass', 'psp': 'bandstop'}.get(pat, 'multiband')

def state(g):
	return [(b.Fs, b.F1, b.F2, b.w1, b.w2, b.passGains, b.stopGain, b.isPassBand) for b in g.bands]

@check.part(specs(), quick=500, thorough=8000, rule="1 to 5 bands given in any order; non-trivial: not given in increasing order")
def construction(c, ctx):
	g = build(c)
	assert g.type == kind(c['A']), "type %r instead of %r" % (g.type, kind(c['A']))
	assert len(g.bands) == len(c['F'])
	Fs = c['Fs'] or 2
	for b, F, A, w in zip(g.bands, c['F'], c['A'], c['w']):
		assert b.F1 == F[0] and b.F2 == (Fs / 2. if F[1] is None else F[1]), "band %r" % b
		assert abs(b.w1 - w[0]) < 1e-9 and abs(b.w2 - w[1]) < 1e-9, "normalized frequencies %r, %r instead of %r" % (b.w1, b.w2, w)
		if isinstance(A, list):
			assert b.isPassBand and b.passGains == (min(A), max(A)) and b.stopGain is None
		else:
			assert not b.isPassBand and b.stopGain == A and b.passGains is None
		d = b - 1.5
		assert (d.F1, d.F2, d.Fs) == (b.F1, b.F2, b.Fs) and d.isPassBand == b.isPassBand
		if d.isPassBand:
			assert np.allclose(d.passGains, (min(A) - 1.5, max(A) - 1.5))
			d.applyDesignMargin(0.1)
			assert np.allclose(d.passGains, (min(A) - 1.4, max(A) - 1.6))
		else:
			assert d.stopGain is not None and abs(d.stopGain - (A - 1.5)) < 1e-9
			d.applyDesignMargin(0.1)
			assert abs(d.stopGain - (A - 1.6)) < 1e-9
		# rectangles drawn
		for dB in (True, False):
			r = b.Rectangle(dB, -150)
			x0, x1 = r.get_x(), r.get_x() + r.get_width()
			y0, y1 = sorted((r.get_y(), r.get_y() + r.get_height()))
			f = (lambda v: v) if dB else (lambda v: 10 ** (v / 20.))
			assert abs(x0 - b.F1) < 1e-6 and abs(x1 - b.F2) < 1e-6
			if isinstance(A, list):
				assert abs(y0 - f(min(A))) < 1e-9 and abs(y1 - f(max(A))) < 1e-9
			else:
				assert abs(y1 - f(A)) < 1e-9 and y0 < y1
	assert g.maxGain() == max(max(a) if isinstance(a, list) else a for a in c['A'])
	ctx.nontrivial(list(c['perm']) != sorted(c['perm']))
	ctx.label(g.type)
	try:
		Gabarit(c['Fs'], [tuple(x) for x in c['F']], c['A'] + [-10.])
	except ValueError:
		return
	raise AssertionError("lists of different lengths are accepted")


def designed(c, ctx, convert):
	g = build(c)
	before = state(g)
	kw = dict(designMargin=c['margin'], centeredZero=c['centered'])
	if c['ftype']:
		kw['ftype'] = c['ftype']
	H = convert(g, kw)
	assert state(g) == before, "the specification has been modified"
	if H.order > 10:
		raise Invalid()
	poles = np.roots(np.array(H.den).flatten())
	assert max(abs(poles)) < 1
	center = sum(c['A'][[isinstance(a, list) for a in c['A']].index(True)]) / 2.
	shift = center if c['centered'] else 0.
	for F, A, w in zip(c['F'], c['A'], c['w']):
		z = np.exp(-1j * np.pi * np.linspace(w[0], w[1], 300))
		dB = 20 * np.log10(np.abs(np.polyval(np.array(H.num).flatten()[::-1], z) / np.polyval(np.array(H.den).flatten()[::-1], z)) + 1e-30) + shift
		if isinstance(A, list):
			assert dB.min() >= min(A) - 1e-3 and dB.max() <= max(A) + 1e-3, "gain in [%r, %r] dB in the pass band %s (%s)" % (dB.min(), dB.max(), F, A)
		else:
			assert dB.max() <= A + 1e-3, "gain of %r dB in the stop band %s (%s)" % (dB.max(), F, A)
	ctx.nontrivial(center != 0)
	ctx.label(g.type, c['ftype'], 'order %d' % H.order, 'stop 0' if 0. in c['A'] else '')

@check.part(st.tuples(specs(types=('lowpass', 'highpass', 'bandpass', 'bandstop')), st.sampled_from(['butter', 'cheby1', 'cheby2', 'ellip', None]), st.sampled_from([0, 0, 1e-3, 0.05]), st.booleans()).map(lambda t: dict(t[0], ftype=t[1], margin=t[2], centered=t[3])),
	quick=300, thorough=4000, shards=(3, 8), budget=(300, 1500), rule="low-pass, high-pass, band-pass and band-stop specifications and the four families of filters; non-trivial: the gain of the pass band is not centred in 0 dB")
def design(c, ctx):
	designed(c, ctx, lambda g, kw: g.to_dTF(**kw))


@st.composite
def matlab_cases(draw):
	c = draw(specs(types=('lowpass', 'highpass', 'bandpass', 'bandstop')))
	if c['type'] == 'bandpass':		# (scipy needs the same gain for the two stop bands, Matlab does not)
		c['A'][2] -= draw(st.sampled_from([0, 0, 1, 2.5, 10, -0.25]))
	return dict(c, ftype=draw(st.sampled_from(['butter', 'cheby1', 'cheby2', 'ellip', None])), margin=draw(st.sampled_from([0, 0, 1e-3, 0.05])), centered=draw(st.booleans()))

@check.part(matlab_cases(), quick=150, thorough=2000, shards=(3, 8), budget=(300, 1500),
	rule="same designs, asked to Matlab (stand-in of its functions fdesign.* and design), the two stop bands of a band-pass having different gains or not; non-trivial: the gain of the pass band is not centred in 0 dB")
def design_matlab(c, ctx):
	with matlab_stub.installed():
		del matlab_stub.Engine.log[:]
		for _ in range(2):
			designed(c, ctx, lambda g, kw: g.to_dTF(method='matlab', **kw))
		assert matlab_stub.Engine.log, "Matlab is not used"
		assert matlab_stub.Engine.started <= 1, "several Matlab engines are started (%d)" % matlab_stub.Engine.started
	ctx.label('different stop gains' if c['type'] == 'bandpass' and c['A'][0] != c['A'][2] else '')


@st.composite
def not_designable(draw):
	what = draw(st.sampled_from(['bandpass', 'bandstop', 'multi']))
	c = draw(specs(types=(what,)))
	if what == 'bandpass':
		c['A'][2] = c['A'][0] - draw(st.sampled_from([1, 2, 5, 0.01, -0.25]))
	elif what == 'bandstop':
		# one of the gains, or both, are different
		which = draw(st.sampled_from([3, 1, 2]))
		d = draw(st.sampled_from([0.25, 0.5, 1.25, 0.01]))
		lo, hi = sorted(c['A'][0])
		c['A'][2] = [lo - d * (which & 1), hi + d * (which >> 1)]
	return dict(c, what=what)

@check.part(not_designable(), quick=150, thorough=1000, rule="specifications that cannot be designed this way (different gains of the two outer bands, other numbers of bands); non-trivial: all")
def rejections(c, ctx):
	g = build(c)
	if c['what'] == 'multi' and (kind(c['A']) != 'multiband' or not any(isinstance(a, list) for a in c['A'])):
		raise Invalid()
	ctx.nontrivial()
	ctx.label(c['what'])
	try:
		g.to_dTF(ftype='ellip')
	except ValueError:
		return
	raise AssertionError("%s is not rejected" % g)
