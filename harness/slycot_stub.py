# coding: utf-8
"""
Stand-in for the two routines of slycot (optional package, not installed here) that fixif.LTI.dSS uses, injected only inside the parts that
exercise the 'slycot' paths. Documented contracts of slycot:

- sb03md(n, C, A, U, dico, job='X', fact='N', trana='N'), dico='D':  trana='N':  A'.X.A - X = scale.C    trana='T':  A.X.A' - X = scale.C
  as with every f2py routine, a Fortran-ordered A is overwritten (by its Schur form) and so is C (by the solution)
- ab09ad(dico, job, equil, n, m, p, A, B, C, nr=None, tol=0): balance & truncate, returns (Nr, Ar, Br, Cr, hsv)
"""
import sys
import numpy as np
from contextlib import contextmanager

def _lyap(A, Q):
	"""X = A.X.A' + Q, by the doubling iteration"""
	X, M = np.array(Q), np.array(A)
	for _ in range(60):
		D = M @ X @ M.T
		X = X + D
		if np.abs(D).max() <= 1e-18 * np.abs(X).max():
			break
		M = M @ M
	return (X + X.T) / 2

def sb03md(n, C, A, U, dico, job='X', fact='N', trana='N', ldwork=None):
	assert dico == 'D' and job == 'X' and fact == 'N' and trana in 'NTC'
	assert A.shape == (n, n) and C.shape == (n, n) and U.shape == (n, n), "sb03md: inconsistent sizes"
	M = np.array(A, dtype=float)
	w = np.linalg.eigvals(M)
	X = _lyap(M.T if trana == 'N' else M, -np.array(C, dtype=float))
	if A.flags.f_contiguous and A.dtype == np.float64:
		from scipy.linalg import schur
		A[:, :] = schur(M)[0]
	if C.flags.f_contiguous and C.dtype == np.float64:
		C[:, :] = X
	return X, 1., 0., 0., w

def ab09ad(dico, job, equil, n, m, p, A, B, C, nr=None, tol=0, ldwork=None):
	assert dico == 'D' and job in 'BN' and equil in 'SN'
	A, B, C = [np.array(M, dtype=float) for M in (A, B, C)]
	assert A.shape == (n, n) and B.shape == (n, m) and C.shape == (p, n), "ab09ad: inconsistent sizes"
	assert nr is None or 0 <= nr <= n
	def root(W):
		w, V = np.linalg.eigh(W)
		return V * np.sqrt(np.maximum(w, 0))
	S, R = root(_lyap(A, B @ B.T)), root(_lyap(A.T, C.T @ C))
	U, h, Vt = np.linalg.svd(R.T @ S)
	keep = int((h > max(tol, n * np.finfo(float).eps * h[0])).sum())
	r = keep if nr is None else min(nr, keep)
	if r == 0:
		return 0, A, B, C, h
	Sr = np.diag(h[:r] ** -0.5)
	T, Ti = S @ Vt[:r].T @ Sr, Sr @ U[:, :r].T @ R.T
	return r, Ti @ A @ T, Ti @ B, C @ T, h

@contextmanager
def installed():
	"""slycot is 'installed' inside of the block"""
	import fixif.LTI
	mod = sys.modules['fixif.LTI.dSS']
	names = dict(sb03md=sb03md, ab09ad=ab09ad, slycot=sys.modules[__name__])
	module = sys.modules.get('slycot')
	sys.modules['slycot'] = sys.modules[__name__]
	old = {k: mod.__dict__[k] for k in names if k in mod.__dict__}
	mod.__dict__.update(names)
	try:
		yield
	finally:
		for k in names:
			mod.__dict__.pop(k, None)
		mod.__dict__.update(old)
		if module is None:
			del sys.modules['slycot']
		else:
			sys.modules['slycot'] = module
