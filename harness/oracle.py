# coding: utf-8
"""Reference models: exact rational arithmetic and plain simulations, written independently of the code under test."""
from fractions import Fraction as F
import math
import numpy as np
import mpmath


# ---------- exact rationals <-> floats / mpf ----------
def mpf_to_F(x):
	"""exact value of an mpf (via its man/exp), of a float or of an int"""
	if isinstance(x, mpmath.mpf):
		sign, man, exp, bc = x._mpf_
		if man == 0 and exp != 0:
			raise ValueError("not finite: %r" % x)
		v = F(int(man)) * (F(2) ** int(exp))
		return -v if sign else v
	if isinstance(x, (int, np.integer)):
		return F(int(x))
	if isinstance(x, F):
		return x
	return F(float(x))

def F_to_mpf(f):
	"""dyadic rational -> exact mpf"""
	d = f.denominator
	assert d & (d - 1) == 0
	return mpmath.mpf((0 if f >= 0 else 1, abs(f.numerator), -(d.bit_length() - 1), abs(f.numerator).bit_length())) if False else mpmath.ldexp(mpmath.mp.make_mpf(mpmath.libmp.from_int(f.numerator)), -(d.bit_length() - 1))

def dyad(m, e):
	"""exact mpf m*2^e, whatever the working precision"""
	return mpmath.mp.make_mpf(mpmath.libmp.from_man_exp(int(m), int(e)))

def matF(M):
	"""list of lists of Fractions of a numpy matrix / mpmath matrix / MPFMatrix / list of lists"""
	if isinstance(M, (list, tuple)):
		return [[mpf_to_F(x) for x in r] for r in M]
	if isinstance(M, np.ndarray):
		M = np.matrix(M)
		return [[mpf_to_F(M[i, j]) for j in range(M.shape[1])] for i in range(M.shape[0])]
	return [[mpf_to_F(M[i, j]) for j in range(M.cols)] for i in range(M.rows)]

def mulF(A, B):
	if not A:
		return []
	n = len(B)
	p = len(B[0]) if n else 0
	return [[sum((A[i][k] * B[k][j] for k in range(n)), F(0)) for j in range(p)] for i in range(len(A))]

def addF(A, B):
	return [[a + b for a, b in zip(r, s)] for r, s in zip(A, B)]

def subF(A, B):
	return [[a - b for a, b in zip(r, s)] for r, s in zip(A, B)]

def eyeF(n):
	return [[F(int(i == j)) for j in range(n)] for i in range(n)]


def rankF(M):
	"""rank of a matrix of Fractions"""
	M, r = [list(x) for x in M], 0
	for j in range(len(M[0]) if M else 0):
		p = next((i for i in range(r, len(M)) if M[i][j]), None)
		if p is None:
			continue
		M[r], M[p] = M[p], M[r]
		for i in range(r + 1, len(M)):
			f = M[i][j] / M[r][j]
			if f:
				M[i] = [x - f * y for x, y in zip(M[i], M[r])]
		r += 1
	return r
