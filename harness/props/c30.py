# coding: utf-8
"""C30: the plots (Bode diagrams, frequency specifications) show the frequency response"""
from core import Check, Invalid
from gens import *
from systems import *
from hypothesis import strategies as st
import numpy as np
import matplotlib.pyplot as plt
from props.c14 import specs, build

check = Check('C30', assumptions=["the figures are drawn with the Agg backend of matplotlib and read back from its objects (curves, rectangles) when they are shown",
	"the points where the modulus is lower than 1e-6 times the sum of the absolute values of the coefficients are not compared; phases are compared modulo 360 degrees; tikz output not covered (package not installed)"])

def drawn(f):
	"""calls f, and returns the axes of the figure that is shown"""
	plt.close('all')
	shown = []
	old = plt.show
	plt.show = lambda *a, **k: shown.append(plt.gcf())
	try:
		with np.errstate(all='ignore'):
			f()
		assert len(shown) == 1, "%d figures shown" % len(shown)
		return shown[0].get_axes()
	finally:
		plt.show = old

def response(H, w):
	num, den = np.array(H['num']), np.array(H['den'])
	z = np.exp(-1j * np.asarray(w, dtype=float))
	h = np.polyval(num[::-1], z) / np.polyval(den[::-1], z)
	# magnitude of the computation: the modulus of small values is not significant
	m = np.abs(num).sum() / np.abs(np.polyval(den[::-1], z))
	ok = (np.abs(h) > 1e-6 * m) & (np.abs(np.polyval(den[::-1], z)) > 1e-6 * np.abs(den).sum())
	return h, ok

def curves(ax):
	"""the curves (not the vertical lines)"""
	return [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.lines if len(l.get_xdata()) > 2]

@check.part(st.tuples(transfer_function(n=(0, 5), stable=False, a0=True), st.sampled_from([None, 1e-3, 1e-2, 0.1, 1.])), quick=100, thorough=1500, shards=(2, 8), budget=(300, 1500),
	rule="Bode diagrams of transfer functions (stable or not, any first coefficient of the denominator); non-trivial: order >= 1")
def bode(c, ctx):
	H, wmin = c
	if any(0 < abs(x) < 1e-10 for x in H['num']):
		raise Invalid()		# (dropped by scipy)
	T = mk_dTF(H)
	axes = drawn(T.bode if wmin is None else lambda: T.bode(wmin=wmin))
	assert len(axes) == 2, "%d axes" % len(axes)
	for ax, what in zip(axes, ('magnitude', 'phase')):
		cs = curves(ax)
		assert len(cs) == 1, "%d curves in the %s" % (len(cs), what)
		w, y = cs[0]
		assert abs(w.min() - (wmin or 1e-3)) < 1e-9 and abs(w.max() - np.pi) < 1e-4, "frequencies from %r to %r" % (w.min(), w.max())
		h, ok = response(H, w)
		if not ok.any():
			raise Invalid()
		ref = 20 * np.log10(np.abs(h[ok])) if what == 'magnitude' else np.degrees(np.angle(h[ok]))
		d = y[ok] - ref
		if what == 'phase':
			d = (d + 180) % 360 - 180
		k = int(np.argmax(np.abs(d)))
		assert abs(d[k]) < 1e-3, "%s of %r at the pulsation %r, instead of %r" % (what, y[ok][k], w[ok][k], ref[k])
	ctx.nontrivial(len(H['den']) > 1)
	ctx.label('order %d' % (len(H['den']) - 1))

@check.part(st.tuples(specs(), st.one_of(transfer_function(n=(0, 5), radius=12), st.none(), transfer_function(n=(1, 5), radius=12)), st.booleans(), st.booleans()), quick=300, thorough=4000, shards=(2, 8), budget=(300, 1500),
	rule="plots of specifications with or without a transfer function, in dB or not; non-trivial: with a transfer function of order >= 1")
def specification(c, ctx):
	d, H, dB, default = c
	g = build(d)
	tf = None if H is None else mk_dTF(H)
	if default and dB:
		axes = drawn(g.plot if tf is None else lambda: g.plot(tf))
	else:
		axes = drawn(lambda: g.plot(tf, dB))
	assert len(axes) == 1
	Fs = d['Fs'] or 2
	# the bands
	f = (lambda v: v) if dB else (lambda v: 10 ** (v / 20.))
	rect = []
	for r in axes[0].patches:
		x0, x1 = sorted((r.get_x(), r.get_x() + r.get_width()))
		y0, y1 = sorted((r.get_y(), r.get_y() + r.get_height()))
		rect.append((x0, x1, y0, y1))
	rect.sort()
	assert len(rect) == len(d['A']), "%d bands drawn instead of %d" % (len(rect), len(d['A']))
	for (x0, x1, y0, y1), Fb, A in zip(rect, d['F'], d['A']):
		assert abs(x0 - Fb[0]) < 1e-6 * Fs and abs(x1 - (Fs / 2. if Fb[1] is None else Fb[1])) < 1e-6 * Fs, "band drawn on [%r, %r] instead of %r" % (x0, x1, Fb)
		if isinstance(A, list):
			assert abs(y0 - f(min(A))) < 1e-9 and abs(y1 - f(max(A))) < 1e-9, "pass band drawn in [%r, %r] instead of %r" % (y0, y1, A)
		else:
			assert abs(y1 - f(A)) < 1e-9 and y0 < y1 and np.isfinite(y0) and (dB or abs(y0) < 1e-9), "stop band drawn in [%r, %r] instead of %r" % (y0, y1, A)
	# the curve
	cs = curves(axes[0])
	assert len(cs) == (tf is not None), "%d curves" % len(cs)
	if tf is not None:
		x, y = cs[0]
		assert abs(x.min()) < 1e-9 * Fs and x.max() > 0.99 * Fs / 2 and len(x) >= 100, "curve drawn on [%r, %r]" % (x.min(), x.max())
		h, ok = response(H, 2 * np.pi * x / Fs)
		if not ok.any():
			raise Invalid()
		m = np.abs(h[ok])
		e = np.abs(y[ok] - (20 * np.log10(m) if dB else m)) / (1 if dB else 1 + m)
		k = int(np.argmax(e))
		assert e[k] < 1e-3, "modulus of %r drawn at %r Hz instead of %r" % (y[ok][k], x[ok][k], m[k])
	ctx.nontrivial(H is not None and len(H['den']) > 1)
	ctx.label('dB' if dB else 'linear', 'with H' if H else 'without H', 'Fs' if d['Fs'] else 'normalized')
