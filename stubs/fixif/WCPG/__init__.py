"""
Stand-in for the external package fixif.WCPG (not in this repository, not installed here).

It implements the documented contract: the Worst-Case Peak Gain of a stable system,
	W = |D| + sum_{k>=0} |C A^k B|      (component-wise)
by plain summation with a geometric stopping rule.
"""
import numpy as np

def WCPG_ABCD(A, B, C, D, output_info=None):
	A, B, C, D = [np.array(np.matrix(X), dtype=float) for X in (A, B, C, D)]
	W = np.abs(D)
	if output_info is not None:
		output_info['N'] = 0
	if A.shape[0] == 0:
		return np.matrix(W)
	X = B.copy()
	small = 0
	for k in range(200000):
		term = np.abs(C @ X)
		W = W + term
		X = A @ X
		if output_info is not None:
			output_info['N'] = k + 1		# (number of terms)
		nx = np.max(np.abs(X)) if X.size else 0.
		if not np.isfinite(nx):
			raise ValueError("WCPG: the system is not stable")
		# all the remaining terms are bounded by |C|.|X| decreasing geometrically: stop when the state is negligible
		small = small + 1 if nx <= 1e-18 * max(1e-300, np.max(np.abs(B)) if B.size else 0.) else 0
		if small > 3:
			break
	return np.matrix(W)

def WCPG_TF(num, den, output_info=None):
	num = np.array(num, dtype=float).flatten()
	den = np.array(den, dtype=float).flatten()
	num, den = num / den[0], den / den[0]
	n = max(len(num), len(den)) - 1
	b = np.concatenate((num, np.zeros(n + 1 - len(num))))
	a = np.concatenate((den, np.zeros(n + 1 - len(den))))
	if n == 0:
		return np.matrix([[abs(b[0])]])
	A = np.diagflat(np.ones(n - 1), 1)
	A[n - 1, :] = -a[:0:-1]
	B = np.zeros((n, 1))
	B[n - 1, 0] = 1.
	C = (b[:0:-1] - b[0] * a[:0:-1]).reshape(1, n)
	return WCPG_ABCD(A, B, C, np.array([[b[0]]]), output_info)
