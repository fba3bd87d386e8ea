# coding: utf-8
"""
Stand-in for the Matlab engine for python (not installed here): only what FiXiF calls, doing what the documentation of Matlab
(or the comments of the Matlab scripts of FiXiF) says. Installed in sys.modules by `installed()` (context manager).
"""
import contextlib, os, sys, types
from array import array
import numpy as np
from scipy.signal import iirdesign

class MatlabExecutionError(Exception):
	pass

class double(object):
	"""two-dimensional array of doubles (stored column by column)"""
	def __init__(self, l):
		M = np.atleast_2d(np.array(l, dtype=float))
		self.size = M.shape
		self._data = array('d', M.flatten(order='F').tolist())

	def rows(self):
		return np.array(self._data).reshape(self.size, order='F').tolist()

	def __getitem__(self, i):
		return self.rows()[i]

	def __len__(self):
		return self.size[0]

class _Fdesign(object):
	def __getattr__(self, name):
		if name not in ('lowpass', 'highpass', 'bandpass', 'bandstop'):
			raise MatlabExecutionError("fdesign.%s" % name)
		return lambda *l: (name, [float(x) for x in l])

class Engine(object):
	started = 0		# number of engines started
	log = []		# the calls

	def __init__(self):
		Engine.started += 1
		self.paths = []
		self.fdesign = _Fdesign()

	def addpath(self, p):
		if os.path.isdir(p):
			self.paths.append(p)	# (otherwise a warning)

	def design(self, d, ftype, *opt):
		"""design(d, method, 'SystemObject', 1)"""
		if opt != ('SystemObject', 1) or ftype not in ('butter', 'cheby1', 'cheby2', 'ellip'):
			raise MatlabExecutionError("design")
		name, v = d
		Engine.log.append((name, tuple(v), ftype))
		if name == 'lowpass':		# Fp, Fst, Ap, Ast
			Fp, Fst, Ap, Ast = v
			ok = 0 < Fp < Fst < 1
			args = [Fp, Fst, Ap, Ast]
		elif name == 'highpass':	# Fst, Fp, Ast, Ap
			Fst, Fp, Ast, Ap = v
			ok = 0 < Fst < Fp < 1
			args = [Fp, Fst, Ap, Ast]
		elif name == 'bandpass':	# Fst1, Fp1, Fp2, Fst2, Ast1, Ap, Ast2
			Fst1, Fp1, Fp2, Fst2, Ast1, Ap, Ast2 = v
			ok = 0 < Fst1 < Fp1 < Fp2 < Fst2 < 1 and Ast1 > 0 and Ast2 > 0
			args = [[Fp1, Fp2], [Fst1, Fst2], Ap, max(Ast1, Ast2)]
		else:						# Fp1, Fst1, Fst2, Fp2, Ap1, Ast, Ap2
			Fp1, Fst1, Fst2, Fp2, Ap1, Ast, Ap2 = v
			ok = 0 < Fp1 < Fst1 < Fst2 < Fp2 < 1 and Ap1 > 0 and Ap2 > 0
			args = [[Fp1, Fp2], [Fst1, Fst2], min(Ap1, Ap2), Ast]
		if not ok or args[2] <= 0 or args[3] <= 0:
			raise MatlabExecutionError("wrong specification %s %s" % (name, v))
		return iirdesign(*args, ftype=ftype)

	def tf(self, h, nargout=1):
		assert nargout == 2
		return double([h[0].tolist()]), double([h[1].tolist()])

	def TF2LWDF2SIF(self, num, den):
		"""a SIF (with intermediate variables) of the filter; the actual one (wave digital filter) is different"""
		if not any(os.path.exists(os.path.join(p, 'TF2LWDF2SIF.m')) for p in self.paths) or not any(os.path.exists(os.path.join(p, 'Hs2LWDF.m')) for p in self.paths):
			raise MatlabExecutionError("Undefined function or variable 'TF2LWDF2SIF'.")
		b, a = (np.array(x.rows()).flatten() for x in (num, den))
		assert a[0] == 1 and len(a) == len(b)
		Engine.log.append(('TF2LWDF2SIF', tuple(b), tuple(a)))
		n = len(a) - 1
		# w(k) = u(k) - sum a_i w(k-i), y(k) = sum b_i w(k-i)    (two intermediate variables: w, then t = b_0 w)
		J = [[1., 0.], [-b[0], 1.]]
		M = [[-x for x in a[1:]], [0.] * n]
		N = [[1.], [0.]]
		K = [[float(i == 0), 0.] for i in range(n)]
		P = [[float(i == j + 1) for j in range(n)] for i in range(n)]
		Q = [[0.] for _ in range(n)]
		L, R, S = [[0., 1.]], [list(b[1:])], [[0.]]
		return {k: double(v) for k, v in zip('JKLMNPQRS', (J, K, L, M, N, P, Q, R, S))}

@contextlib.contextmanager
def installed():
	m, e = types.ModuleType('matlab'), types.ModuleType('matlab.engine')
	m.double, m.engine, m.__path__ = double, e, []
	e.start_matlab, e.MatlabExecutionError = (lambda *a: Engine()), MatlabExecutionError
	old = {k: sys.modules.get(k) for k in ('matlab', 'matlab.engine')}
	sys.modules['matlab'], sys.modules['matlab.engine'] = m, e
	try:
		yield
	finally:
		for k, v in old.items():
			if v is None:
				del sys.modules[k]
			else:
				sys.modules[k] = v
