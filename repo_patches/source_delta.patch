From 42844339df3d3b7c6342780d5ac64cdf29b849c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:30 +0000
Subject: [PATCH 01/96] fix: MPFMatrix.mul_exact checks and uses the inner
 dimension (cols of the left operand, rows of the right one)

---
 fixif/func_aux/MPFMatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 92c638d..d4143fa 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -219,11 +219,11 @@ class MPFMatrix(object):
 		# test sizes
 
 
-		if self.rows != other.cols:
+		if self.cols != other.rows:
 			raise ValueError('Cannot compute exact product of two matrices: incorrect sizes.')
 
 		m = self.rows
-		n = self.rows
+		n = self.cols
 		p = other.cols
 
 		C = mpmath.zeros(m, p)
-- 
2.43.0


From 8fef4efcd142a248044f646ae5b8823e822f32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:43 +0000
Subject: [PATCH 02/96] fix: exact matrix functions raise their ValueError (and
 print their NaN/Inf warning) instead of failing on the string formatting

---
 fixif/func_aux/MPFMatrix.py             | 14 +++++++-------
 fixif/func_aux/mpf_matrix_fadd.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fmul.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fsub.py       |  4 ++--
 fixif/func_aux/mpf_matrix_lt_inverse.py |  6 +++---
 fixif/func_aux/mpf_matrix_to_sollya.py  |  4 ++--
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index d4143fa..a0b49c3 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -142,7 +142,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		#test sizes
 		if self.shape != other.shape:
@@ -156,7 +156,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i,j] = mpmath.fadd(self[i,j], other[i,j], exact=True)
 				if mpmath.isnan(C[i,j]) or mpmath.isinf(C[i,j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i,j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i,j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -177,7 +177,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 		if self.shape != other.shape:
@@ -191,7 +191,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i, j] = mpmath.fsub(self[i, j], other[i, j], exact=True)
 				if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -214,7 +214,7 @@ class MPFMatrix(object):
 
 		# check input type
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 
@@ -233,7 +233,7 @@ class MPFMatrix(object):
 					tmp = mpmath.fmul(self[i, k], other[k, j], exact=True)
 					C[i, j] = mpmath.fadd(C[i, j], tmp, exact=True)
 					if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 
 		return MPFMatrix(C)
 
@@ -256,7 +256,7 @@ class MPFMatrix(object):
 
 		# checking the size
 		if self.rows != self.cols:
-			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % self.rows, self.cols)
+			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (self.rows, self.cols))
 		else:
 			n = self.rows
 
diff --git a/fixif/func_aux/mpf_matrix_fadd.py b/fixif/func_aux/mpf_matrix_fadd.py
index 56b400c..f78d33a 100644
--- a/fixif/func_aux/mpf_matrix_fadd.py
+++ b/fixif/func_aux/mpf_matrix_fadd.py
@@ -28,7 +28,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fmul.py b/fixif/func_aux/mpf_matrix_fmul.py
index 2c50ce2..cbce90d 100644
--- a/fixif/func_aux/mpf_matrix_fmul.py
+++ b/fixif/func_aux/mpf_matrix_fmul.py
@@ -28,7 +28,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fsub.py b/fixif/func_aux/mpf_matrix_fsub.py
index cfae140..36235eb 100644
--- a/fixif/func_aux/mpf_matrix_fsub.py
+++ b/fixif/func_aux/mpf_matrix_fsub.py
@@ -28,7 +28,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_lt_inverse.py b/fixif/func_aux/mpf_matrix_lt_inverse.py
index 2622a6b..4d074ed 100644
--- a/fixif/func_aux/mpf_matrix_lt_inverse.py
+++ b/fixif/func_aux/mpf_matrix_lt_inverse.py
@@ -64,15 +64,15 @@ def mpf_matrix_lt_inverse(L):
 		try:
 			L = python2mpf_matrix(L)
 		except ValueError as e:
-			raise ValueError('Cannot compute exact difference of two matrices. %s') % e
+			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(L, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(L)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(L))
 
 
 	#checking the size
 	if L.rows != L.cols:
-		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % L.rows, L.cols)
+		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (L.rows, L.cols))
 	else:
 		n = L.rows
 
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index 95fec46..a56658b 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -24,10 +24,10 @@ def mpf_matrix_to_sollya(A):
 	"""
 
 	if not isinstance(A,mpmath.matrix):
-		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s') % type(A)
+		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s' % type(A))
 
 	if not isinstance(A[0,0], mpmath.mpf):
-		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s') % type(A[0,0])
+		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
 
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
-- 
2.43.0


From 0e6d01b608109f599a3b8b6b7ad8faa5e1b95e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:37 +0000
Subject: [PATCH 03/96] fix: mpf_matrix_to_sollya and sollya_matrix_to_numpy
 import sollya (NameError otherwise)

---
 fixif/func_aux/mpf_matrix_to_sollya.py   | 1 +
 fixif/func_aux/sollya_matrix_to_numpy.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index a56658b..f4f6695 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -34,6 +34,7 @@ def mpf_matrix_to_sollya(A):
 
 	(Y, N) = mpf_matrix_get_representation(A)
 
+	import sollya
 	m = A.rows
 	n = A.cols
 	S = list()
diff --git a/fixif/func_aux/sollya_matrix_to_numpy.py b/fixif/func_aux/sollya_matrix_to_numpy.py
index 23b370a..0b72e84 100644
--- a/fixif/func_aux/sollya_matrix_to_numpy.py
+++ b/fixif/func_aux/sollya_matrix_to_numpy.py
@@ -18,6 +18,7 @@ def sollya_matrix_to_numpy(A, m, n):
 	B - numpy matrix
 	"""
 
+	import sollya
 	B = numpy.matrix(numpy.zeros([m,n]))
 	for i in range(0,m):
 		for j in range(0,n):
-- 
2.43.0


From aff0200ce8068cf8371ff2bfca6f9c1e799289bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:59 +0000
Subject: [PATCH 04/96] fix: mp_poly_product handles a single factor
 (first-order systems could not be converted by dSSmp.to_dTFmp)

---
 fixif/func_aux/mp_poly_product.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/mp_poly_product.py b/fixif/func_aux/mp_poly_product.py
index f268778..217e110 100644
--- a/fixif/func_aux/mp_poly_product.py
+++ b/fixif/func_aux/mp_poly_product.py
@@ -27,14 +27,17 @@ def mp_poly_product(p, j=-1):
 
 	"""
 	degP = len(p)
-	if degP < 2:
+	if degP < 1:
 		raise ValueError('error in polynomial product: empty polynomial')
 	if j == -1:
 		c = mp.matrix([1, p[0]])
 		for i in range(1, degP):
 			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
 	else:
-		if j == 0:
+		if degP == 1:
+			# empty product
+			c = mp.matrix([1])
+		elif j == 0:
 			c = mp.matrix([1, p[1]])
 			for i in range(2, degP):
 				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-- 
2.43.0


From 77c12ef703e5f493d3338e2c1fefcacfee3975dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:34 +0000
Subject: [PATCH 05/96] fix: dTF with numerator and denominator of different
 lengths (order, sums and state-space conversions were wrong or failed)

---
 fixif/LTI/dTF.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 43da056..efea5e2 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -18,7 +18,7 @@ __status__ = "Beta"
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
 from numpy import matrix as mat, polymul, polyadd
-from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
+from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
 
@@ -46,10 +46,12 @@ class dTF(object):
 			self._den = den/den[0, 0]
 
 		# filter order
-		# if den.shape!=num.shape:
-		# 	raise ValueError( 'Numerator and denomintator must have same length !')
+		# (num[i] and den[i] are the coefficients of z^-i, so the shortest polynomial is completed with zeros)
+		length = max(self._num.shape[1], self._den.shape[1])
+		self._num = c_[self._num, zeros((1, length-self._num.shape[1]))]
+		self._den = c_[self._den, zeros((1, length-self._den.shape[1]))]
 
-		self._order = num.shape[1]-1
+		self._order = length-1
 
 		# cached sollya numerator and denominator
 		self._sollya = None
-- 
2.43.0


From f3d01ed947167c2378729f633bf1fbcac6d4da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:34 +0000
Subject: [PATCH 06/96] fix: products and sums of dTF keep the delays (polymul
 drops the leading zeros of strictly proper transfer functions)

---
 fixif/LTI/dTF.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index efea5e2..81e4c9a 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -17,7 +17,7 @@ __status__ = "Beta"
 
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
-from numpy import matrix as mat, polymul, polyadd
+from numpy import matrix as mat, convolve, polyadd
 from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
@@ -95,8 +95,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(self._num * other, self._den)
 		elif isinstance(other, dTF):
-			numer = polymul(self.num.A1, other.num.A1)
-			denom = polymul(self.den.A1, other.den.A1)
+			numer = convolve(self.num.A1, other.num.A1)
+			denom = convolve(self.den.A1, other.den.A1)
 			return dTF(numer, denom)
 		else:
 			raise ValueError("Cannot multiply a dTF with a %s", type(other))
@@ -107,8 +107,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(polyadd(self._num.A1, self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(self._num.A1, other.den.A1), polymul(self._den.A1, other.num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = polyadd(convolve(self._num.A1, other.den.A1), convolve(self._den.A1, other.num.A1))
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 		raise ValueError("Cannot add a dTF with a %s", type(other))
 	__radd__ = __add__  # lazy definition
@@ -118,8 +118,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(polyadd(self._num.A1, -self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(self._num.A1, other.den.A1), -polymul(self._den.A1, other.num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = polyadd(convolve(self._num.A1, other.den.A1), -convolve(self._den.A1, other.num.A1))
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 		raise ValueError("Cannot substract a dTF with a %s", type(other))
 
@@ -128,8 +128,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(polyadd(-self._num.A1, self._den.A1 * other), self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(other.num.A1, self._den.A1), -polymul(other.den.A1, self._num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = polyadd(convolve(other.num.A1, self._den.A1), -convolve(other.den.A1, self._num.A1))
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 
 
-- 
2.43.0


From 45a1d9145492a8e821a20692301d92fecddf6ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:34 +0000
Subject: [PATCH 07/96] fix: dTF right substraction rejects unknown types (None
 was returned)

---
 fixif/LTI/dTF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 81e4c9a..676cb57 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -131,6 +131,7 @@ class dTF(object):
 			numer = polyadd(convolve(other.num.A1, self._den.A1), -convolve(other.den.A1, self._num.A1))
 			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
+		raise ValueError("Cannot substract a dTF with a %s", type(other))
 
 
 	def to_dTFmp(self):
-- 
2.43.0


From 333fa9a99a521ffa3c83206d12374f1dde907dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 08/96] fix: dTFmp normalizes its coefficients by the first
 coefficient of the denominator (without changing the matrices given)

---
 fixif/LTI/dTFmp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 4afb131..e0cc171 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -48,14 +48,14 @@ class dTFmp(object):
 			raise ValueError('Cannot create a dTFmp pbject: incorrect sizes')
 
 
-		n = a.rows
 		if a[0, 0] != mpmath.mp.one:
-			for i in range(0, n):
-				# division cannot be performed exactly but we do it with doubled precision
-				a[i, 0] = mpmath.fdiv(a[i, 0], a[0, 0], prec=a[i, 0]._mpf_[3] * 2)
-				b[i, 0] = mpmath.fdiv(b[i, 0], b[0, 0], prec=b[i, 0]._mpf_[3] * 2)
+			# division cannot be performed exactly but we do it with doubled precision
+			def normalize(x, x0=a[0, 0]):
+				return mpmath.fdiv(x, x0, prec=max(mpmath.mp.prec, x._mpf_[3] * 2))
+			a = a.apply(normalize)
+			b = b.apply(normalize)
 
-		self._order = n - 1
+		self._order = a.rows - 1
 		self._num = b
 		self._den = a
 
-- 
2.43.0


From ea1088e1db407653f6e3aa27a01e894c3a4a7c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 09/96] fix: dTFmp with numerator and denominator of different
 lengths (conversion to state-space was wrong or failed)

---
 fixif/LTI/dTFmp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index e0cc171..b79cd36 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -55,7 +55,13 @@ class dTFmp(object):
 			a = a.apply(normalize)
 			b = b.apply(normalize)
 
-		self._order = a.rows - 1
+		# num[i] and den[i] are the coefficients of z^-i, so the shortest polynomial is completed with zeros
+		n = max(a.rows, b.rows)
+		if a.rows != b.rows:
+			a = mpmath.matrix(a.tolist() + [[0]] * (n - a.rows))
+			b = mpmath.matrix(b.tolist() + [[0]] * (n - b.rows))
+
+		self._order = n - 1
 		self._num = b
 		self._den = a
 
-- 
2.43.0


From 2885a59985c2f2634a973e66a11a582fa2f658f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 10/96] fix: dTFmp.to_dSSmp is exact whatever the working
 precision

---
 fixif/LTI/dTFmp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index b79cd36..2e64306 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -130,7 +130,8 @@ class dTFmp(object):
 		N = self.order + 1
 
 		A = mpmath.mp.zeros(N - 1, N - 1)
-		A[0, :] = -self.den.transpose()[0, 1:N]
+		for i in range(1, N):
+			A[0, i - 1] = mpmath.fneg(self.den[i, 0], exact=True)
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
-- 
2.43.0


From d00d71e983218a063270905241ea868eb1c781a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 11/96] fix: difference of dSSmp is exact whatever the working
 precision

---
 fixif/LTI/dSSmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 474a135..73bb7e0 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -265,7 +265,7 @@ class dSSmp(object):
 				D[i, j] = mpmath.fsub(self.D[i, j], S.D[i, j], exact=True)
 		for i in range(0, self.p):
 			for j in range(0, S.n):
-				C[i, j + self.n] = -S.C[i, j]
+				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)
 
 		return dSSmp(A, B, C, D)
 
-- 
2.43.0


From fac7b37ce3af2344059ef552962af370729fb116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 12/96] fix: dSSmp.to_dTFmp does not change the working
 precision when it rejects a non SISO system

---
 fixif/LTI/dSSmp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 73bb7e0..65425ef 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -290,14 +290,14 @@ class dSSmp(object):
 		"""
 		# converting the dSS matrices to mp type
 
-		oldprec = mpmath.mp.prec
-		mpmath.mp.prec = prec
-
 		from fixif.LTI import dTFmp
 
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
+		oldprec = mpmath.mp.prec
+		mpmath.mp.prec = prec
+
 		E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
 		Cmp = self.C * V
 		Vinv = mpmath.mp.inverse(V)
-- 
2.43.0


From 7e9435ba1f6a674398521392876277d39d800c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 13/96] fix: dSSmp.simulate takes into account the initial
 state

---
 fixif/LTI/dSSmp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 65425ef..6098004 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -429,7 +429,8 @@ class dSSmp(object):
 			raise ValueError('Cannot perform somulation: u is of incorrect size')
 
 		xk = mpmath.mp.zeros(self._n, 1)
-		if x0:
+		if x0 is not None:
+			xk = x0
 			if not isinstance(x0, mpmath.matrix):
 				if isinstance(x0, numpy.matrix):
 					xk = python2mpf_matrix(x0)
-- 
2.43.0


From c28b69ba6dd6188e153542e2cc9de694023a4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 14/96] fix: dSSmp.simulate with exact=False updates (and
 rounds to double precision) the state at each iteration

---
 fixif/LTI/dSSmp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 6098004..440a53b 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -461,8 +461,7 @@ class dSSmp(object):
 				yk[:, i] = mpf_matrix_fmul(self._C, xk)
 				yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
-			for i in range(0, xk.rows):
-				xk[i, 0] = mpmath.fadd(xkp1[i, 0], mpmath.mp.zero, prec=64, rounding='n')
+				xk = xkp1.apply(lambda x: mpmath.fadd(x, mpmath.mp.zero, prec=53, rounding='n'))
 
 
 		return yk
-- 
2.43.0


From 0c7d52df0a3cb8c651ec08a5b2eb6c1d6cedddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 15/96] fix: dSSmp.simulate_rounded imports sollya and accepts
 mpmath matrices

---
 fixif/LTI/dSSmp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 440a53b..19970fc 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -374,12 +374,14 @@ class dSSmp(object):
 
 	def simulate_rounded(self, u, prec=53):
 
+		import sollya
+
 		# suppose u is a mpmath matrix
 		xk = mpmath.mp.zeros(self._n, 1)
 
 		# xk = mpf_matrix_to_sollya(xk)[0]
 
-		nSimulations = u.shape[1]
+		nSimulations = u.cols
 		yk = mpmath.mp.zeros(self._p, nSimulations)
 
 		yk_sollya = mpf_matrix_to_sollya(yk)[0]
-- 
2.43.0


From 2459625c5f680bb664fe84ae9395ce4a7393662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 16/96] fix: series of dSS checks the dimensions that are
 connected (conformable MIMO systems were rejected)

---
 fixif/LTI/dSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index f520783..97b5952 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -528,7 +528,7 @@ class dSS(object):
 		n1, p1, q1 = self.size
 		n2, p2, q2 = other.size
 
-		if p1 != q2:
+		if q1 != p2:
 			raise ValueError("dSS: second state space should have same number of inputs as first state number of outputs")
 
 		# TODO: possible simplification if self.A==other.A ??
-- 
2.43.0


From 1b9813e831f2d5ac315d89cd35b63365ccceb961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 17/96] fix: dSS.similarity invalidates the cached Gramians

---
 fixif/LTI/dSS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 97b5952..78a189a 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -446,6 +446,9 @@ class dSS(object):
 		self._B = Tinv * self._B
 		self._C = self._C * T
 		# D is unchanged
+		# the Gramians depend on the state-space coordinates (not the norms nor the DC gain)
+		self._Wo = None
+		self._Wc = None
 
 	# ======================================================================================
 	def _check_dimensions(self):
-- 
2.43.0


From dab3ffc1b0a10ffd76c602711d7d6c47f4340754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 18/96] fix: dSS.simplify terminates when A is singular without
 null row

---
 fixif/LTI/dSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 78a189a..87b9519 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -614,6 +614,8 @@ class dSS(object):
 			for i in range(0, newS.n):
 				if numpy.count_nonzero(newS._A[i, :]) == 0:
 					l.append(i)
+			if len(l) == 0:
+				break
 
 			A = newS._A
 			B = newS._B
-- 
2.43.0


From 4962a39a527178f9d1987dfa8b36c38897e3a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 19/96] fix: random_dSS retries the masks that are all zeros
 (it rejected the ones that are all ones)

---
 fixif/LTI/dSS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 87b9519..6a1f2de 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -903,12 +903,12 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	# Make masks to zero out some of the elements.
 	while True:
 		Bmask = rand(n, q) < pBCmask
-		if not Bmask.all():  # Retry if we get all zeros.
+		if Bmask.any():  # Retry if we get all zeros.
 			break
 
 	while True:
 		Cmask = rand(p, n) < pBCmask
-		if not Cmask.all():  # Retry if we get all zeros.
+		if Cmask.any():  # Retry if we get all zeros.
 			break
 
 	if rand() < pDzero:
@@ -917,7 +917,7 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	else:
 		while True:
 			Dmask = rand(p, q) < pDmask
-			if not Dmask.all():  # Retry if we get all zeros.
+			if Dmask.any():  # Retry if we get all zeros.
 				break
 
 
-- 
2.43.0


From 86f8efb540a0a0c4b29021d4aae790e931e4e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:51 +0000
Subject: [PATCH 20/96] fix: dSS.simplify can remove all the states

---
 fixif/LTI/dSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 6a1f2de..4029feb 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -609,7 +609,7 @@ class dSS(object):
 
 		newS = self
 
-		while newS.n > numpy.linalg.matrix_rank(newS._A):
+		while newS.n > 0 and newS.n > numpy.linalg.matrix_rank(newS._A):
 			l = list()
 			for i in range(0, newS.n):
 				if numpy.count_nonzero(newS._A[i, :]) == 0:
@@ -638,7 +638,7 @@ class dSS(object):
 
 			newS = dSS(A, B, C, D)
 
-			print("number of states: %d \n rank: %d " % (newS.n, numpy.linalg.matrix_rank(newS._A)))
+			print("number of states: %d" % newS.n)
 
 		return newS
 
-- 
2.43.0


From 4ca42f93323a710a8ab0f3e1dc09280aab3b41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 21/96] fix: random_Butter gives even orders when onlyEven is
 set (they were all odd)

---
 fixif/LTI/Butter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 8862413..b76a8fa 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -108,7 +108,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]
 	# choose order
 	order = randint(*n)
-	if onlyEven and order % 2 == 0:
+	if onlyEven and order % 2 == 1:
 		order += 1
 
 	return Butter(order, W, form, name='Butterworth-random-%d' % seed)
-- 
2.43.0


From b1380c43d1937abef7931a07105acdad4374eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 22/96] fix: random_Butter without seed (its name cannot be
 built from None)

---
 fixif/LTI/Butter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index b76a8fa..e8d0b97 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -111,4 +111,4 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 	if onlyEven and order % 2 == 1:
 		order += 1
 
-	return Butter(order, W, form, name='Butterworth-random-%d' % seed)
+	return Butter(order, W, form, name='Butterworth-random-%d' % seed if seed is not None else 'Butterworth-random')
-- 
2.43.0


From d103adbf95f80a67d6bb23c216a6ea265141ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 23/96] fix: random_Elliptic without seed (its name cannot be
 built from None)

---
 fixif/LTI/Elliptic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index b1243ca..95d75d9 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -129,7 +129,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
 
-	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed)
+	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed if seed is not None else 'Elliptic-random')
 
 
 
-- 
2.43.0


From 2a80d2232caa960bc8cc4ced68401b4d020d466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 24/96] fix: the seed 0 is used (Butter)

---
 fixif/LTI/Butter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index e8d0b97..6cb78d7 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -88,7 +88,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
-- 
2.43.0


From 69a01c8c17991b432b0d075933f8a4736416e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 25/96] fix: the seed 0 is used (Elliptic)

---
 fixif/LTI/Elliptic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index 95d75d9..d813151 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -99,7 +99,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
-- 
2.43.0


From f3fa355b4eccdd0fceb21ab7eb9b59fd78e7c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 26/96] fix: the seed 0 is used (Filter)

---
 fixif/LTI/Filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index b4aebc7..2c39c1e 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -233,7 +233,7 @@ def random_Filter(n=10, p=5, q=5, seed=None, name=None):
 		else:
 			raise ValueError("randomFilter: the string should be a valid string, ie be like 'RandomFilter-7/1/4-12345678'")
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 		name = 'RandomFilter-%d/%d/%d-%d' % (n, p, q, seed) 	# for example 'RandomFilter-(5,10)/(1,2)/(1,10)-12345678' for a MISO filter (#states between 5 and 10, #inputs between 1 and 10), seed=12345678)
 	else:
-- 
2.43.0


From bf74355041332f74adf7438a8a0765fe28fca29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 27/96] fix: the seed 0 is used (Gabarit)

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index eab4c55..56df8aa 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -462,7 +462,7 @@ def random_Gabarit(form=None, seed=None):
 	- seed: if not None, indicates the seed to use for the random part (in order to be reproductible, the seed is stored in the name of the gabarit)
 	"""
 	# change the seed if asked (otherwise, set the seed)
-	if not seed:
+	if seed is None:
 		set_seed(None)  # (from doc):  If seed is omitted or None, current system time is used
 		seed = randint(0, 16777215)  # between 0 and 2^24-1
 	set_seed(seed)
-- 
2.43.0


From ee4b76202164245f806d71dd9307ffb806b3c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 28/96] fix: Gabarit with a stop band at 0dB can be converted
 in transfer function

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 56df8aa..db55a67 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -102,7 +102,7 @@ class Band(object):
 	def __sub__(self, other):
 		"""Substract a Band and a Gain"""
 		try:
-			stopGain = self._stopGain-other if self._stopGain else None
+			stopGain = self._stopGain-other if self._stopGain is not None else None
 			passGains = (self._passGains[0]-other, self._passGains[1]-other) if self._passGains else None
 		except Exception:
 			raise ValueError("The gain should be a constant")
-- 
2.43.0


From a76e60094692b86d928e8ff33df5f27f842c5680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 29/96] fix: Gabarit.to_dTF rejects (as intended) the bandstop
 with different gains in the two pass bands

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index db55a67..e993875 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -314,7 +314,7 @@ class Gabarit(object):
 			pass1b, stopb, pass2b = bands
 			matlabParams = [pass1b.w2, stopb.w1, stopb.w2, pass2b.w1, -pass1b.passGains[0], -stopb.stopGain, -pass2b.passGains[0]]
 			scipyParams = [[pass1b.w2, pass2b.w1], [stopb.w1, stopb.w2], -pass1b.passGains[0], -stopb.stopGain]
-			if not matlabEng and pass1b.passGains[0] != pass1b.passGains[0]:
+			if not matlabEng and pass1b.passGains != pass2b.passGains:
 					raise ValueError("Scipy cannot handle bandstop when the two pass bands have different gains")
 
 
-- 
2.43.0


From 90c91aa15792e3906cbd86f9724bc0a09f0c6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 30/96] fix: iter_random_dSS accepts p=1 or q=1 (as documented)

---
 fixif/LTI/dSS.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 4029feb..30fdf8c 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -791,15 +791,11 @@ def iter_random_dSS(number, stable=True, n=(5, 10), p=(1, 5), q=(1, 5),
 	"""
 	for i in range(number):
 		if stable:
-			yield random_dSS(randint(*n), randint(*p), randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
+			yield random_dSS(randint(*n), 1 if p == 1 else randint(*p), 1 if q == 1 else randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
 		else:
 			nn = randint(*n)
-			if p == 1 and q == 1:
-				pp = 1
-				qq = 1
-			else:
-				pp = randint(*p)
-				qq = randint(*q)
+			pp = 1 if p == 1 else randint(*p)
+			qq = 1 if q == 1 else randint(*q)
 			A = mat(rand(nn, nn))
 			B = mat(rand(nn, qq))
 			C = mat(rand(pp, nn))
-- 
2.43.0


From d20de240856dacc0a9808aa448d6ef84191e51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 31/96] fix: random_dTF gives the order asked (there was one
 coefficient less)

---
 fixif/LTI/dTF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 676cb57..797ee7e 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -284,8 +284,8 @@ def random_dTF(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = mat(rand(1, n))
-	den = mat(rand(1, n))
+	num = mat(rand(1, n + 1))
+	den = mat(rand(1, n + 1))
 	return dTF(num, den)
 
 
-- 
2.43.0


From 9b4c98b346783bfe12d8dcc7d8e63040b292814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 32/96] fix: random_dTFmp gives the order asked (there was one
 coefficient less)

---
 fixif/LTI/dTFmp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 2e64306..02828b5 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -198,8 +198,8 @@ def random_dTFmp(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = numpy.matrix(rand(1, n))
-	den = numpy.matrix(rand(1, n))
+	num = numpy.matrix(rand(1, n + 1))
+	den = numpy.matrix(rand(1, n + 1))
 	return dTFmp(num, den)
 
 
-- 
2.43.0


From 7d8f80400f26a0686a934b60efdf8a05c821c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 33/96] fix: random_Elliptic uses by default the ranges of
 iter_random_Elliptic (the attenuation could be lower than the ripple, the
 filter was made of NaN)

---
 fixif/LTI/Elliptic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index d813151..e4802b1 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -84,7 +84,7 @@ def iter_random_Elliptic(number, n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8)
 
 
 
-def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
+def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
 	"""
 	Generate a n-th order Butterworh filters
 	Parameters
-- 
2.43.0


From aa497eea00ff24cc723e67051218af1da16d4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 34/96] fix: the setters of a SIF invalidate the associated
 systems Hu, Hepsilon and Hzeta

---
 fixif/SIF/SIF.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9217322..d22c285 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -148,11 +148,6 @@ class SIF(SIF_sensibility):
 		self._dZ = None
 		self._build_dZ(dJtodS)
 
-		# extra state-space associated (computed only the 1st time they are required)
-		self._Hu = None
-		self._Hepsilon = None
-		self._Hzeta = None
-
 
 	def _build_Z(self, JtoS):
 		"""
@@ -246,6 +241,10 @@ class SIF(SIF_sensibility):
 	def _build_fromZ(self):
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
+		# extra state-space associated (computed only the 1st time they are required)
+		self._Hu = None
+		self._Hepsilon = None
+		self._Hzeta = None
 
 
 	# Only matrix Z is kept in memory
-- 
2.43.0


From 9b74b1dce87fc715d96872c0b8c8ee64ffb2d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 35/96] fix: the setter of P rebuilds everything that depends
 on P (the sensitivities were wrong)

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index d22c285..6a95d4d 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -434,7 +434,7 @@ class SIF(SIF_sensibility):
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
 		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
-		self._build_AZtoDZ()
+		self._build_fromZ()
 
 	@Q.setter
 	def Q(self, mymat):
-- 
2.43.0


From 6eb0e9618a9e0ecc9c3211a81f7f2ed85955903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 36/96] fix: all the setters of the coefficients of a SIF
 update dZ (see the TODO)

---
 fixif/SIF/SIF.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 6a95d4d..291b738 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -310,6 +310,7 @@ class SIF(SIF_sensibility):
 	def Z(self, mymat):
 		self._Z = mymat
 		self._invJ = inv(self.J)
+		self._build_dZ(None)
 		self._build_fromZ()
 
 	@dZ.setter
@@ -408,47 +409,55 @@ class SIF(SIF_sensibility):
 	def J(self, mymat):
 		self._Z[0: self._l, 0: self._l] = - mymat
 		self._invJ = inv(mymat)
+		self._build_dZ(None)
 		self._build_fromZ()
 
 	@K.setter
 	def K(self, mymat):
 		self._Z[self._l: self._l + self._n, 0: self._l] = mymat
+		self._build_dZ(None)
 		self._build_fromZ()
 
 	@L.setter
 	def L(self, mymat):
 		self._Z[self._l + self._n: self._l + self._n + self._p, 0:self._l] = mymat
+		self._build_dZ(None)
 		self._build_fromZ()
 
 	@M.setter
 	def M(self, mymat):
 		self._Z[0: self._l, self._l: self._l + self._n] = mymat
+		self._build_dZ(None)
 		self._build_fromZ()
 
 	@N.setter
 	def N(self, mymat):
 		self._Z[0: self._l, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._build_dZ(None)
 		self._build_fromZ()
 
 	@P.setter
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
-		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
+		self._build_dZ(None)
 		self._build_fromZ()
 
 	@Q.setter
 	def Q(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._build_dZ(None)
 		self._build_fromZ()
 
 	@R.setter
 	def R(self, mymat):
 		self._Z[self._l + self._n: self._l + self._n + self._p, self._l: self._l + self._n] = mymat
+		self._build_dZ(None)
 		self._build_fromZ()
 
 	@S.setter
 	def S(self, mymat):
 		self._Z[self._l + self._n: self._l + self._n + self._p, self._l + self._n: self._l + self._n + self._q] = mymat
+		self._build_dZ(None)
 		self._build_fromZ()
 
 
-- 
2.43.0


From 328794e0b38661ac3d13d098e37a9218769934f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 37/96] fix: dJ has the same sign when it is read and when it
 is given

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 291b738..3e76106 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -367,7 +367,7 @@ class SIF(SIF_sensibility):
 
 	@property
 	def dJ(self):
-		return -self._dZ[0: self._l, 0: self._l]
+		return self._dZ[0: self._l, 0: self._l]
 
 	@property
 	def dK(self):
-- 
2.43.0


From 8df0c47303bcc1dc75744345dccd6de5b84477da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 38/96] fix: the matrices given to the setters of Z and dZ are
 copied (they were modified by the setters of J to S)

---
 fixif/SIF/SIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 3e76106..730180a 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -308,14 +308,14 @@ class SIF(SIF_sensibility):
 	# Z, dZ setters
 	@Z.setter
 	def Z(self, mymat):
-		self._Z = mymat
+		self._Z = np.matrix(mymat)		# a copy (the setters of J to S change it)
 		self._invJ = inv(self.J)
 		self._build_dZ(None)
 		self._build_fromZ()
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = mymat
+		self._dZ = np.matrix(mymat)
 
 
 	#  JtoS getters
-- 
2.43.0


From aa66ec60bdc35d066bfd2ea3fd77a117a87f0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 39/96] fix: error messages of the SIF are formatted

---
 fixif/SIF/SIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 730180a..6339323 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -74,7 +74,7 @@ def _check_dimensions(JtoS):
 		# check for consistency
 		if (a[0], b[0]) != X.shape:
 			pb = a[1] if a[0] != X.shape[0] else b[1]
-			raise ValueError("The matrix %s is a %dx%d matrix, instead of being a %dx%d matrix (to be consistent with matrix %s)", name, X.shape[0], X.shape[1], a[0], b[0], pb)
+			raise ValueError("The matrix %s is a %dx%d matrix, instead of being a %dx%d matrix (to be consistent with matrix %s)" % (name, X.shape[0], X.shape[1], a[0], b[0], pb))
 
 	return l[0], n[0], p[0], q[0]
 
@@ -592,7 +592,7 @@ class SIF(SIF_sensibility):
 		u = mat(u)
 		N = u.shape[1]
 		if u.shape[0] != self._q:
-			raise ValueError("SIF.simulate: u should be a %d*N matrix", self._q)
+			raise ValueError("SIF.simulate: u should be a %d*N matrix" % self._q)
 		y = mat(zeros((self._p, N)))
 
 		xk = mat(zeros((self._n, 1)))  # TODO: add the possibility to start with a non-zero state
-- 
2.43.0


From d91506af2562d07d5dd83d56c6693d1bad58982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 40/96] fix: SIF.generate_inputs (the impulse response was not
 computed, it failed for n>1)

---
 fixif/SIF/SIF.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 6339323..a3ef297 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -548,9 +548,9 @@ class SIF(SIF_sensibility):
 		such that the output is the largest possible for u \in [-u_bar; u_bar] .
 		For this,
 
-		u[i] = u_bar * sign( h(N - i) ),
+		u[i] = u_bar * sign( h(N - i) ),	1 <= i <= N
 
-		where h(k) is the filter's impulse response.
+		where h(k) is the filter's impulse response (the largest output is the last one).
 
 		We compute it by passing to the state-space representation.
 
@@ -569,14 +569,19 @@ class SIF(SIF_sensibility):
 		u_bar = np.matrix(u_bar)
 		if u_bar.shape != (self._dSS.q, 1):
 			if u_bar.shape == (1, self._dSS.q):
-				u_bar.transpose()
+				u_bar = u_bar.transpose()
 			else:
 				raise ValueError('Cannot generate inputs: u_bar is of incorrect size')
+		if self._dSS.p != 1:
+			raise ValueError('Cannot generate inputs: several outputs cannot be the largest possible with the same inputs')
 
 		u = np.matrix(np.zeros([self._dSS.q, N]))
-		u[:, 0] = self.dSS.D
-		for i in range(1, N):
-			u[:, i] = u_bar * np.sign(self.dSS.B * (self.dSS.A ** (N - i)) * self.dSS.C)		# TODO: ugly A**(N-i) !!
+		h = self.dSS.D		# impulse response: D, C*B, C*A*B, C*A^2*B, etc.
+		AkB = self.dSS.B
+		for i in range(N - 1, -1, -1):
+			u[:, i] = np.multiply(u_bar, np.sign(h.transpose()))
+			h = self.dSS.C * AkB
+			AkB = self.dSS.A * AkB
 		return u
 
 
-- 
2.43.0


From 3527cae845283efbe43d951542797e2ea4867c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 41/96] fix: number of additions of a SIF with null lines
 (negative numbers were counted)

---
 fixif/SIF/SIF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index a3ef297..c1fe810 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -676,7 +676,9 @@ class SIF(SIF_sensibility):
 		# per line, the number of addition is equal to the number of non-zero coefficients - 1
 		# for the l first SoP, we need to decrease by 1 this number (the diagonal terms of J should not be counted)
 		# number of multiplication is equal to the number of non-trivial coefficients
-		return count_nonzero(self.dZ), count_nonzero(self.Z) - self.l - (self.l+self.n+self.p)
+		# (a line with only null coefficients requires no addition)
+		nbCoefs = [count_nonzero(self.Zcomp[i, :]) for i in range(self.l + self.n + self.p)]
+		return count_nonzero(self.dZ), sum(max(0, nb - 1) for nb in nbCoefs)
 
 	def isPnut(self):
 		"""
-- 
2.43.0


From 97c344fb04698a6857f33a6b1906c722c556d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 42/96] fix: getZtpmatrixLaTeX for state-spaces with different
 numbers of inputs and outputs

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index c1fe810..d37a8dc 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -734,7 +734,7 @@ class SIF(SIF_sensibility):
 		the null element are not shown when sparse=True
 		"""
 		l, n, p, q = self.size
-		code = [] if l > 0 else [r"\&" * (l + n + p) + r"\\" + "\n"]
+		code = [] if l > 0 else [r"\&" * (n + q) + r"\\" + "\n"]
 		for i in range(l+n+p):
 			line = [] if l>0 else [""]
 			for j in range(l+n+q):
-- 
2.43.0


From a0f3748e0545d24f3f9e68e7f2fbd988a0c2359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 43/96] fix: a SIF built from matrices of integers keeps the
 coefficients given later to its setters (they were truncated)

---
 fixif/SIF/SIF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index d37a8dc..e96427e 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -154,7 +154,7 @@ class SIF(SIF_sensibility):
 		build Z or dZ depending on provided matrix tuple
 		"""
 		J, K, L, M, N, P, Q, R, S = [np.matrix(X) for X in JtoS]
-		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]])
+		self._Z = np.matrix(np.bmat([[-J, M, N], [K, P, Q], [L, R, S]]), dtype=float)		# (floats, even if the matrices given have only integers)
 
 
 
@@ -308,7 +308,7 @@ class SIF(SIF_sensibility):
 	# Z, dZ setters
 	@Z.setter
 	def Z(self, mymat):
-		self._Z = np.matrix(mymat)		# a copy (the setters of J to S change it)
+		self._Z = np.matrix(mymat, dtype=float)		# a copy (the setters of J to S change it)
 		self._invJ = inv(self.J)
 		self._build_dZ(None)
 		self._build_fromZ()
-- 
2.43.0


From 015e945913c5937edac3915aec52921970bf6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 44/96] fix: sensitivities of a SIF (N1 and N2 were the
 matrices of Hu, the sensitivities of the coefficients of the states and
 inputs were wrong or failed)

---
 fixif/SIF/SIF.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index e96427e..7936db2 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -212,8 +212,9 @@ class SIF(SIF_sensibility):
 		# compute the useful matrices M1, M2, N1 and N2
 		self._M1 = c_[self.K * self._invJ, eye(self._n), zeros((self._n, self._p))]
 		self._M2 = c_[self.L * self._invJ, zeros((self._p, self._n)), eye(self._p)]
-		self._N1 = r_[self._invJ * self.M, self.AZ, self.CZ]
-		self._N2 = r_[self._invJ * self.N, self.BZ, self.DZ]
+		# (such that the derivative of AZ with respect to Z is M1^T x N1^T, of BZ M1^T x N2^T, of CZ M2^T x N1^T and of DZ M2^T x N2^T)
+		self._N1 = r_[self._invJ * self.M, eye(self._n), zeros((self._q, self._n))]
+		self._N2 = r_[self._invJ * self.N, zeros((self._n, self._q)), eye(self._q)]
 
 
 	def _build_dZ(self, dJtodS):
@@ -658,7 +659,7 @@ class SIF(SIF_sensibility):
 	def Hu(self):
 		"""Hu system is the state-space system from the inputs to the intern variables t,x,y"""
 		if self._Hu is None:
-			self._Hu = dSS(self.AZ, self.BZ, self._N1, self._N2)
+			self._Hu = dSS(self.AZ, self.BZ, r_[self._invJ * self.M, self.AZ, self.CZ], r_[self._invJ * self.N, self.BZ, self.DZ])
 		return self._Hu
 
 	@property
-- 
2.43.0


From 8b546ef287e6352826ae299c47b4a0db2a2e936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 45/96] fix: H2 norm of the systems with a null transfer
 function (NaN because of the rounding errors)

---
 fixif/LTI/dSS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 30fdf8c..ac36148 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -341,7 +341,10 @@ class dSS(object):
 		try:
 			# less errors when Wc is big and Wo is small
 			M = self._C * self.Wc * self._C.transpose() + self._D * self._D.transpose()
-			self._H2norm = sqrt(M.trace())[0,0]
+			trace = M.trace()[0, 0]
+			if -1e-12 * norm(self._C)**2 * norm(self.Wc) < trace < 0:
+				trace = 0		# the norm is null, it's negative only because of the rounding errors
+			self._H2norm = sqrt(trace)
 		except ValueError:  # TODO: check what kind of exception we need to catch here
 			try:
 				M = self._B.transpose() * self.Wo * self._B + self._D * self._D.transpose()
-- 
2.43.0


From 25835247e86b36c16cef2b472391071216b2e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 46/96] fix: sensitivity of the poles (the imaginary part was
 dropped)

---
 fixif/SIF/SIF_sensibility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 17a94ca..cadc44c 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -75,7 +75,8 @@ def deigdZ(A, M1, M2, shapeZ, moduli=True):
 	mylambda = mat(conj(mylambda))
 
 	# sensitivity matrix
-	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]))  #  numpy does not know about hypermatrixes
+	# (the sensitivities of the poles themselves are complex)
+	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]), dtype=float if moduli else complex)  #  numpy does not know about hypermatrixes
 
 	for k in range(0, mylambda.shape[1]):
 		if moduli == 1:
-- 
2.43.0


From 146fcf51708700e7e5182d384ce273a2c7e0c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 47/96] fix: rhoDFII with all the Delta equal to 1 uses the
 gamma given (the gamma were considered equal to 1)

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 705fbff..7bdec85 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -163,7 +163,7 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			L = mat(1)
 			M = c_[atleast_2d(1), zeros((1, n - 1))]
 			N = mat(Vbeta[0, 0])
-			P = mat(diagflat(Delta)) + mat(diagflat(ones((1, n - 1)), 1))
+			P = mat(diagflat(gamma)) + mat(diagflat(ones((1, n - 1)), 1))
 			Q = Vbeta[1:n + 1, 0]
 			R = zeros((1, n))
 			S = mat(0)
-- 
2.43.0


From 34d58768ca601d0ba0bf244420ed91137b9feb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 48/96] fix: rhoDFII accepts a list (or an array) for Delta,
 like for gamma

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 7bdec85..241d852 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -53,6 +53,8 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 	if gamma is None:
 		gamma = ones((1, n))
 	gamma = mat(gamma)
+	if Delta is not None:
+		Delta = mat(Delta)
 
 	# =====================================
 	#  Step 1: build Valapha_bar, Vbeta_bar
-- 
2.43.0


From f9d6b12ba79fd39268e64584620aae4f0a5eac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 49/96] fix: canAcceptFilter of the state-space structure
 without option (form is None by default)

---
 fixif/Structures/State_Space/State_Space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/State_Space/State_Space.py b/fixif/Structures/State_Space/State_Space.py
index ccdded9..0709439 100644
--- a/fixif/Structures/State_Space/State_Space.py
+++ b/fixif/Structures/State_Space/State_Space.py
@@ -46,7 +46,7 @@ def makeSS(filt, form=None):
 	return {"JtoS": JtoS}
 
 
-def acceptSS(filt, form):
+def acceptSS(filt, form=None):
 	"""
 	The forms 'ctrl' and 'obs' cannot be applied to MIMO filters
 	'balanced' form is for stable filter
-- 
2.43.0


From b4a2fa8b4f6165132e41e1708500ac8a817e913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 50/96] fix: LGS and LCW do not accept the first order filters
 (they failed to build their realization)

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 60f6a12..8055d7a 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -369,9 +369,9 @@ def makeLCW(filt, transposed=False):
 
 def acceptLGSLCW(filt, **options):
 	"""
-	return True only if the filter is SISO and stable
+	return True only if the filter is SISO and stable, with at least 2 states (Phi_in has at least one alpha out of its diagonal)
 	"""
-	return filt.isSISO() and filt.isStable()
+	return filt.isSISO() and filt.isStable() and filt.order >= 2
 
 
 # build the Direct Form I
-- 
2.43.0


From fecdfcf4d67b94b44c9bb12f3c1ca8df227a52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 51/96] fix: error message of Structure.getFromName is
 formatted

---
 fixif/Structures/Structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/Structure.py b/fixif/Structures/Structure.py
index 72708ca..52a324b 100644
--- a/fixif/Structures/Structure.py
+++ b/fixif/Structures/Structure.py
@@ -69,7 +69,7 @@ class Structure(object):
 		if name in cls._allStructures:
 			return cls._allStructures[name]
 		else:
-			raise ValueError("Structure: the realization '%s' doesn't exist (must be in {%s})", name, ", ".join(cls._allStructures.keys()))
+			raise ValueError("Structure: the realization '%s' doesn't exist (must be in {%s})" % (name, ", ".join(cls._allStructures.keys())))
 
 	def canAcceptFilter(self, filt, **options):
 		"""
-- 
2.43.0


From 3a534bdf581ff70392ec067452bd2f3387a61536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 52/96] fix: LGS and LCW of the second order filters (the
 scaling of the second row did not take into account the last alpha)

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 8055d7a..c44f26d 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -110,7 +110,7 @@ def A_decomposition_LGS(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []		# (n-1 values, the last one is set below)
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
@@ -135,7 +135,7 @@ def A_decomposition_LCW(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []		# (n-1 values, the last one is set below)
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
-- 
2.43.0


From 18ba1bc6821606afe36e6e8153a459ff7cb1bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 53/96] fix: algorithm with surnames but without time is
 rejected when the surnames of the states are shifted in time (only those of
 the temporary variables were considered)

---
 fixif/SIF/Realization_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index b6e43f6..c0d1497 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -108,7 +108,7 @@ class R_algorithm:
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
 			v = [v for v in self._varNameT if v.hasSurnameWithIndex()]
-			v.extend([v for v in self._varNameT if v.hasSurnameWithIndex()])
+			v.extend([v for v in self._varNameX if v.hasSurnameWithIndex()])
 			if len(v) > 0:
 				raise ValueError("algorithmTxt: wichSurname=True and withTime=False are incoherent")
 
-- 
2.43.0


From 3d567c1e1cf17870c100932340614de5c2306545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 54/96] fix: comments of the algorithms (texts and LaTeX) are
 at the right place when useless lines are removed

---
 fixif/SIF/Realization_algorithms.py | 39 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index c0d1497..e66dd00 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -44,14 +44,19 @@ class R_algorithm:
 		env = make_env(loader=FileSystemLoader(SIF_TEMPLATES_PATH))
 		tpl = env.get_template('algorithmLaTeX_template.tex')
 
-		algoStr = [s+r"\\" for s in self._algorithmCore(LaTeX=True, assign='$\leftarrow$', coefFormat=coefFormat, withTime=withTime, withSurname=withSurname)]
+		algoT, algoX, algoY = [[s+r"\\" for s in lines] for lines in self._algorithmCore(LaTeX=True, assign='$\leftarrow$', coefFormat=coefFormat, withTime=withTime, withSurname=withSurname)]
 
 		# add comments
-		algoStr.insert(self._l + self._n, r"\tcp{Outputs}" if self._p > 1 else r"\tcp{Output}")
-		if self._n > 0:
-			algoStr.insert(self._l, r"\tcp{States}" if self._n > 1 else r"\tcp{State}")
-		if self._l > 0:
-			algoStr.insert(0, r"\tcp{Temporary variables}" if self._l > 1 else r"\tcp{Temporary variable}")
+		algoStr = []
+		if algoT:
+			algoStr.append(r"\tcp{Temporary variables}" if self._l > 1 else r"\tcp{Temporary variable}")
+		algoStr.extend(algoT)
+		if algoX:
+			algoStr.append(r"\tcp{States}" if self._n > 1 else r"\tcp{State}")
+		algoStr.extend(algoX)
+		if algoY:
+			algoStr.append(r"\tcp{Outputs}" if self._p > 1 else r"\tcp{Output}")
+		algoStr.extend(algoY)
 		if withTime is False and self.isPnut():
 			algoStr.append(r"\tcp{Swap states}")
 			algoStr.append("$" + self._varNameX[0].name + ' \leftarrow ' + self._varNameX[0].name + "p$")
@@ -83,16 +88,18 @@ class R_algorithm:
 		Otherwise, should be in C formatting format (like "%4.f" for example)
 		"""
 
-		algoStr = self._algorithmCore(LaTeX=False, assign='<-', coefFormat=coefFormat, withTime=withTime, withSurname=withSurname)
+		algoT, algoX, algoY = self._algorithmCore(LaTeX=False, assign='<-', coefFormat=coefFormat, withTime=withTime, withSurname=withSurname)
 
 		# comments
 		if comments:
-			algoStr.insert(self._l + self._n, "/ Outputs /" if self._p > 1 else "/ Output /")
-			if self._n > 0:
-				algoStr.insert(self._l, "/ States /" if self._n > 1 else "/ State /")
-			if self._l > 0:
-				algoStr.insert(0, "/ Temporary variables /" if self._l > 1 else "/ Temporary variable /")
-
+			if algoT:
+				algoT.insert(0, "/ Temporary variables /" if self._l > 1 else "/ Temporary variable /")
+			if algoX:
+				algoX.insert(0, "/ States /" if self._n > 1 else "/ State /")
+			if algoY:
+				algoY.insert(0, "/ Outputs /" if self._p > 1 else "/ Output /")
+
+		algoStr = algoT + algoX + algoY
 		return "\n".join(algoStr)
 
 
@@ -104,6 +111,8 @@ class R_algorithm:
 		- withTime: True if the variable are labeled with time (cannot be False if withSurname is True)
 		- withSurname: True if the surname of the variables (when they exist) are used; in that case, the temporary variables do not have time (t instead of t(k+1))
 		Otherwise, should be in C formatting format (like "%4.f" for example)
+
+		Returns 3 lists of lines (for the temporary variables, the states and the outputs)
 		"""
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
@@ -134,6 +143,7 @@ class R_algorithm:
 
 		# iter over all SoP
 		algoStr = []
+		groups = ([], [], [])
 		for i in range(self._l + self._n + self._p):
 			# sum of product
 			sop1 = SoP(self.Zcomp[i, :].tolist()[0], varTXU, varTXY[i])     # varTXU is used for dst and the comparison with src
@@ -144,6 +154,7 @@ class R_algorithm:
 				newLine = sop2.toAlgoStr(assign, coefFormat)
 				if newLine and newLine not in algoStr:  # to avoid redondant lines (append for DFI with surname)
 					algoStr.append(newLine)
+					groups[0 if i < self._l else 1 if i < self._l + self._n else 2].append(newLine)
 
 
 		#TODO: build the SoP with VarName (instead of just strings) and put this "trick" in the SoP.toAlgoStr method instead of here
@@ -151,4 +162,4 @@ class R_algorithm:
 
 
 
-		return algoStr
+		return groups
-- 
2.43.0


From 9ffe0396520d681b6cb03ad4bcc7196edf505596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 55/96] fix: long coefficients are not cut when the lines of a
 sum-of-products are wrapped

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index 16ee774..e9e5d2b 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -77,7 +77,7 @@ class SoP:
 		if self._resName == S:
 			return ''
 		else:
-			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60))
+			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60, break_long_words=False, break_on_hyphens=False))
 
 
 
-- 
2.43.0


From 67760439bb1337590d964c06e64858545b0f922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 56/96] fix: SoP.__str__ gives the format of the coefficients
 as a format (it was used as the assignment symbol)

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index e9e5d2b..40ccdae 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -83,4 +83,4 @@ class SoP:
 
 	def __str__(self):
 		"""display the SoP"""
-		return self.toAlgoStr('%4f')
+		return self.toAlgoStr(coefFormat='%4f')
-- 
2.43.0


From d81095c0c8e1ee71f757be328f853be9d4a2eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 57/96] fix: generateNames with an empty list of surnames, or
 with both strings and tuples

---
 fixif/SoP/VarName.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SoP/VarName.py b/fixif/SoP/VarName.py
index 293c008..e75ed22 100644
--- a/fixif/SoP/VarName.py
+++ b/fixif/SoP/VarName.py
@@ -114,8 +114,8 @@ def generateNames(baseName, nbVar, surnames=None):
 	# initial values when surnames is None
 	if surnames is None:
 		surnames = [(None, i+1 if nbVar > 1 else None, 0) for i in range(nbVar)]
-	elif isinstance(surnames[0], str):		# simple surnames, without index and shift
-		surnames = [(s, None, 0) for s in surnames]
+	else:		# simple surnames, without index and shift
+		surnames = [(s, None, 0) if isinstance(s, str) else s for s in surnames]
 
 	return [VarName(baseName, i + 1 if nbVar > 1 else None, sn, ind, sh) for i, (sn, ind, sh) in enumerate(surnames)]
 
-- 
2.43.0


From 9ec7883a509bbf690f772749175c5c57fd2535fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 58/96] fix: C code of the realizations with one state (the
 state is given in an array)

---
 fixif/SIF/Realization_implementation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index cbc232d..ad7d4aa 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -83,7 +83,7 @@ class R_implementation:
 		# input(s), output(s), states, intermediate variables
 		strU = genCvarNames('u', q)
 		strY = genCvarNames('y', p)
-		strXk = genCvarNames('xk', n)
+		strXk = ['xk[%d]' % (i,) for i in range(n)]		# always an array (even with one state)
 		strXkp = ['x%d_kp1' % (i,) for i in range(n)]
 		strT = ['T%d' % (i,) for i in range(l)]
 
-- 
2.43.0


From aa2c796472ab3033b9ba60512e129b902aa467e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 59/96] fix: the C code of each realization is compiled in its
 own directory (the library of the first realization run in the process was
 used for all the others)

---
 fixif/SIF/Realization_implementation.py | 29 ++++++++++++-------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index ad7d4aa..e6eee5d 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -25,10 +25,10 @@ import numpy
 from inspect import getfile
 from fixif import SIF
 from fixif.SoP import SoP
-from os.path import dirname
+from os.path import dirname, join
+from tempfile import TemporaryDirectory
 FIXIF_SIF_PATH = dirname(getfile(SIF))
 
-GENERATED_PATH = FIXIF_SIF_PATH + '/../generated/code/'
 TEMPLATE_PATH = FIXIF_SIF_PATH + '/templates/'
 
 
@@ -157,22 +157,21 @@ class R_implementation:
 		"""
 		# TODO: manage the place where the code is generated (it should be an absolute path?)
 
-		# generate C code
-		with open(GENERATED_PATH+"runC.c", "w") as cFile:
-			cFile.write(self.implementCdouble("implementCdouble"))
+		# each library is compiled in its own directory (a library already loaded is not loaded again when it has the same path)
+		with TemporaryDirectory() as codePath:
+			# generate C code
+			with open(join(codePath, "runC.c"), "w") as cFile:
+				cFile.write(self.implementCdouble("implementCdouble"))
 
-		print("Compiling runC.c")
+			print("Compiling runC.c")
 
-		# compile it
-		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o runC.so runC.c ", stderr=PIPE, shell=True)
-		# check the output and print it
-		line = 'non-empty'
-		while line:
-			line = proc.stderr.readline().decode('utf-8')
-			print(line[:-1])		# TODO: log it somewhere ?
+			# compile it
+			proc = Popen(["cc", "-Wall", "-fPIC", "-shared", "-o", "runC.so", "runC.c"], cwd=codePath, stderr=PIPE)
+			# check the output and print it
+			print(proc.communicate()[1].decode('utf-8'))		# TODO: log it somewhere ?
 
-		# use ctype
-		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
+			# use ctype
+			self._Cdouble = CDLL(join(codePath, 'runC.so')).implementCdouble
 		if self.p == 1:
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
 		else:
-- 
2.43.0


From 52bdc0fc1eceb8793ac9a9b495d2ec3ba7688ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 60/96] fix: the C function returns a double (the output was
 considered as an int)

---
 fixif/SIF/Realization_implementation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index e6eee5d..5107dee 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -173,6 +173,7 @@ class R_implementation:
 			# use ctype
 			self._Cdouble = CDLL(join(codePath, 'runC.so')).implementCdouble
 		if self.p == 1:
+			self._Cdouble.restype = c_double
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
 		else:
 			self._Cdouble.argtypes = (POINTER(c_double), c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
-- 
2.43.0


From e08fb9a2328c205dff7ed4c7ca73bed5d2906fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 61/96] fix: runCdouble with several inputs or outputs (it
 returned zeros)

---
 fixif/SIF/Realization_implementation.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index 5107dee..d4f9f49 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -204,7 +204,16 @@ class R_implementation:
 		y = zeros((self._p, N))
 
 		# loop to compute the outputs
-		if self.p == 1 and self.q == 1:
-			for i in range(N):
-				y[:, i] = self._Cdouble(u[:, i], px)
+		for i in range(N):
+			if self.q == 1:
+				ui = float(u[0, i])
+			else:
+				uin = numpy.array(u[:, i], dtype=float).flatten()		# (kept during the call)
+				ui = uin.ctypes.data_as(POINTER(c_double))
+			if self.p == 1:
+				y[0, i] = self._Cdouble(ui, px)
+			else:
+				yi = zeros(self._p)
+				self._Cdouble(yi.ctypes.data_as(POINTER(c_double)), ui, px)
+				y[:, i] = yi
 		return y
\ No newline at end of file
-- 
2.43.0


From 8241fec064c3ed322946629773e7775ad9f528fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 62/96] fix: the C function (and the MSB and LSB) of a
 realization are computed again when its coefficients are modified

---
 fixif/SIF/Realization.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index cfcad67..1bde9ba 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -91,6 +91,15 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 		self._Cdouble = None
 
 
+	def _build_fromZ(self):
+		"""Build everything that depends on Z"""
+		super(Realization, self)._build_fromZ()
+		# what has been computed with the previous coefficients is not valid anymore
+		self._Cdouble = None
+		self._MSB = None
+		self._LSB = None
+
+
 	@property
 	def MSB(self):
 		"""Returns the MSB"""
-- 
2.43.0


From ab50f9e86d6777208bb4ed30fdfa7d6c8e55605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 63/96] fix: quantize does not use np.float (removed from
 numpy)

---
 fixif/SIF/Realization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index 1bde9ba..6bf6025 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -163,7 +163,7 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 
 		# copy the realization and quantized the matrix Z
 		R = copy(self)
-		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[np.float])
+		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
 		return R
 
-- 
2.43.0


From 16fcc65505f572aa4c4e707c1133ff3c3109dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 64/96] fix: optimalUniformWL and optimalWL call
 computeNaiveMSB (_computeNaiveMSB does not exist)

---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d3b08ee..8b4e23c 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -115,7 +115,7 @@ class R_FxP:
 			return d
 
 		# determining the MSB and w_tilde
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
@@ -150,7 +150,7 @@ class R_FxP:
 		wmax = wmax * ones((self.l + self.n + self.p, 1))
 
 		# determining the MSB
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
-- 
2.43.0


From 477346f0a8f6194914970df1bbc80257b4a25d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 65/96] fix: optimal word-lengths when some MSB are negative
 (integers cannot be raised to negative powers)

---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 8b4e23c..1de3561 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -120,7 +120,7 @@ class R_FxP:
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# determining the minimal word-length with uniform scheme
 		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps)))[0, 0])
@@ -155,7 +155,7 @@ class R_FxP:
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# generate the .dat file
 		AMPLcode = {
-- 
2.43.0


From 263b4269293be67a37adca7ca5468064ac8f5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 66/96] fix: threshold of the word-lengths for bounds that are
 powers of 2 (+Inf, see the TODO)

---
 fixif/SIF/Realization_FxP.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 1de3561..ff335c6 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -87,11 +87,16 @@ class R_FxP:
 		We use:  w_tilde = 1 + ceil(log2(zeta_bar)) - floor(log2( 2^ceil(log2(zeta_bar)) - zeta_bar ))
 		with zeta_bar = <<Hzeta>>.u_bar
 		"""
-		#TODO: test if zeta_bar is a power of 2 (should be +Inf in that case)
+		# (when zeta_bar is a power of 2, it cannot be reached whatever the word-length: the threshold is +Inf)
 		zeta_bar = self.Hzeta.WCPG() * u_bar
 
+		def threshold(x):
+			m = mpmath.ceil(mpmath.log(x, 2))
+			d = mpmath.power(2, m) - x
+			return int(1 + m - mpmath.floor(mpmath.log(d, 2))) if d else inf
+
 		with mpmath.workprec(500):  # TODO: compute how many bit we need !!
-			wtilde = [int(1+mpmath.ceil(mpmath.log(x[0], 2)) - mpmath.floor(mpmath.log(mpmath.power(2, mpmath.ceil(mpmath.log(x[0], 2))) - x[0], 2))) for x in zeta_bar.tolist()]
+			wtilde = [threshold(x[0]) for x in zeta_bar.tolist()]
 
 		return wtilde
 
-- 
2.43.0


From 4d680f13b8c235ac59ef8dc5cce211ca8dccb9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 67/96] fix: infinite thresholds are written in the AMPL file
 (as more than the maximum word-length)

---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index ff335c6..ccb6f08 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -13,7 +13,7 @@ __status__ = "Beta"
 from os import path
 import mpmath
 from numpy import zeros, ones, matrix, power, ndenumerate, kron, multiply, nditer
-from numpy import floor, log2, ceil, bmat, inf
+from numpy import floor, log2, ceil, bmat, inf, minimum
 from string import Template
 
 from fixif.config import SIF_TEMPLATES_PATH
@@ -169,7 +169,7 @@ class R_FxP:
 			'def_u': generateAMPLParam('u', wmax, "%d"),
 			'def_E': generateAMPLParam('E', E),
 			'def_eps': generateAMPLParam('eps', eps),
-			'def_wtilde': generateAMPLParam('wtilde', w_tilde, "%d")}
+			'def_wtilde': generateAMPLParam('wtilde', minimum(w_tilde, wmax + 1), "%d")}
 
 		# generate the xmpl.dat file
 		with open(SIF_TEMPLATES_PATH + "xmpl.dat.template") as f:
-- 
2.43.0


From 3aaad11e99f4f08d2c0258cfe2f077c3d21398dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 68/96] fix: small values are not lost in the AMPL files

---
 fixif/SIF/Realization_FxP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index ccb6f08..c862103 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -19,7 +19,7 @@ from string import Template
 from fixif.config import SIF_TEMPLATES_PATH
 
 # functions to define some parameters in a AMPL .dat file
-def generateAMPLParam(name, val, format="%f"):
+def generateAMPLParam(name, val, format="%.17g"):
 	"""generate AMPL code for the data of a given parameter
 	Parameters:
 		- name: name of the parameter
-- 
2.43.0


From 935f68da7ac7b261c6c7362e44807eaf801bfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 69/96] fix: indices of the row vectors in the AMPL files (they
 were all equal to 1)

---
 fixif/SIF/Realization_FxP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index c862103..59d4a71 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -31,7 +31,7 @@ def generateAMPLParam(name, val, format="%.17g"):
 		return "param %s := %d;" % (name, val)
 	if val.shape[0] == 1 or val.shape[1] == 1:
 		# 1d vector
-		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (i[0]+1, wm) for i, wm in ndenumerate(val)))
+		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (max(i)+1, wm) for i, wm in ndenumerate(val)))
 	else:
 		# 2d array
 		col = " ".join(str(x+1) for x in range(val.shape[1]))
-- 
2.43.0


From 23012563275e5de7fd0a753acc5f6cef38beef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 70/96] fix: the LSB are computed with the formula documented
 (the output LSB was counted twice, the error was larger than required for
 positive LSB)

---
 fixif/SIF/Realization_FxP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 59d4a71..3a8a8fe 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -210,7 +210,7 @@ class R_FxP:
 		# where the correction term g_i is computed via
 		# g_i = 1 + max_j { ceil( log2 ( c * wcpgDeltaH[j, i] ) )}
 
-		g = bmat([1 + max(ceil(log2(c * wcpgDeltaH[:, i] * 2**-l_y_out))) for i in range(0, c)])
+		g = bmat([1 + max(ceil(log2(c * wcpgDeltaH[:, i]))) for i in range(0, c)])
 
 		# the error budget for the output y(k) that will be later passed on to FloPoCo
 		error_budget_y = 2**-ceil(log2(c * wcpgDeltaH[0, c-1] * 2**-l_y_out))/2**(l_y_out+1)
-- 
2.43.0


From 2a20f89314bcdce3dde0073c82780fe79141e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 71/96] fix: the word-lengths of optimalWL satisfy the
 constraints when they are lower than the thresholds (the MSB is then
 increased)

---
 fixif/SIF/Realization_FxP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 3a8a8fe..fc3aae3 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -178,12 +178,13 @@ class R_FxP:
 			f.write(AMPL.substitute(AMPLcode))
 
 		if self.p == 1:
-			return [ int(ceil(log2(Ei*(self.n+self.p+self.l)) - log2(eps[0,0]))) for Ei in nditer(E) ]
+			weq = [ int(ceil(log2(Ei*(self.n+self.p+self.l)) - log2(eps[0,0]))) for Ei in nditer(E) ]
 		else:
 			weq=[]
 			for j in range(self.l+self.n+self.p):
 				weq.append( int(max(ceil(log2(E[i,j]*(self.n+self.p+self.l)) - log2(eps[i,0])) for i in range(self.p)) ))
-			return weq
+		# (one more bit when the MSB is increased)
+		return [w + 1 if w < w_tilde[j, 0] else w for j, w in enumerate(weq)]
 
 
 
-- 
2.43.0


From a95a4c0ab3b6dfebd0beaf5c0b9063f4adea1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 72/96] fix: Simulink diagrams with gains (the dictionary of
 the terms was modified while iterating on it)

---
 fixif/Structures/Simulink/diagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 146698e..16868fc 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -274,7 +274,7 @@ class System(object):
 		# ? keep cascading gain block : test if the current block is a sum
 		# 								and create also an inter var for upstream gain block
 		for eq in self.equations:
-			for eqin in eq.termes:
+			for eqin in list(eq.termes): # a copy of the dict keys / dict is changing during iteration
 				if self.blocks[eqin].type == 'Gain':
 					oldgain = eq.termes[eqin]	
 					del eq.termes[eqin] 
-- 
2.43.0


From 879ad2bda28c4ca16e0950dbd2315668aa905065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 73/96] fix: Simulink diagrams where a block is used several
 times in a sum (directly, by gains or by merged sums): the coefficients are
 added

---
 fixif/Structures/Simulink/diagram.py | 15 ++++++++-------
 fixif/Structures/Simulink/sif.py     |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 16868fc..738a2f6 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -230,12 +230,14 @@ class System(object):
 			
 			# sum sign handling
 			# affect -1.0 to coeff if the sign corresponding to input block is '-'
+			# (the coefficients are added if the same block is connected to several inputs)
 			if self.blocks[bsid].type == 'Sum':
 				curblock = self.blocks[bsid]
+				neweq.termes = {}
 				for pi in curblock.inlist.keys():
-					if curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
-						bi = curblock.inlist[pi] # inlist = {porti:blocki} : block feeding the given input port 
-						neweq.termes[bi.sid] = 0 - 1.0 
+					bi = curblock.inlist[pi] # inlist = {porti:blocki} : block feeding the given input port 
+					sign = -1.0 if curblock.inportsign[int(pi)-1] == '-' else 1.0 # port number start on '1'
+					neweq.termes[bi.sid] = neweq.termes.get(bi.sid, 0.0) + sign
 			
 				
 			if self.blocks[bsid].type != 'Inport':
@@ -254,12 +256,11 @@ class System(object):
 				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 					inpb =  self.getblockbysid(inp)
 					inpcoeff = eq.termes[inp]
-					assert abs(inpcoeff) == 1.0 # Sum have no gain
 					if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
 						# handle here sum sign propagation: coeff2*inpcoeff  
-						d = dict((inp2, coeff2*inpcoeff) for (inp2,coeff2) in self.getequation(inp).termes.items())
-						eq.termes.update(d)
 						del eq.termes[inp]
+						for (inp2,coeff2) in self.getequation(inp).termes.items():
+							eq.termes[inp2] = eq.termes.get(inp2, 0.0) + coeff2*inpcoeff
 
 						subequa = self.getequation(inp)
 						self.equations.remove(subequa)
@@ -281,7 +282,7 @@ class System(object):
 
 					gaineq = self.getequation(eqin)
 					for gin in gaineq.termes:
-						eq.termes[gin] = gaineq.termes[gin] * oldgain
+						eq.termes[gin] = eq.termes.get(gin, 0.0) + gaineq.termes[gin] * oldgain
 
 
 	def isequationused(self,eq): 
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3dd2960..5efcd82 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -134,7 +134,7 @@ class Sif(object):
 			elif eq.out in t: # intermediate eq
 				for block,coeff in eq.termes.items() : # scan current equation inputs
 					if block in t:
-						self.J[t.index(eq.out)] [t.index(block)] = str(0-coeff)
+						self.J[t.index(eq.out)] [t.index(block)] = 0-coeff
 					elif block in x:
 						self.M[t.index(eq.out)] [x.index(block)] = coeff
 					elif block in u:
-- 
2.43.0


From 05b9124db7efa561f606f789a96b06847aa5bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 74/96] fix: the outputs of the Simulink diagrams are the
 Outports, in the order of their numbers (with several outputs, they were
 swapped or used another block)

---
 fixif/Structures/Simulink/diagram.py |  9 ++---
 fixif/Structures/Simulink/sif.py     | 53 ++--------------------------
 2 files changed, 6 insertions(+), 56 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 738a2f6..295daba 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -340,7 +340,7 @@ class System(object):
 			block = self.getblockbysid(sid)
 			if block.type == 'Outport':
 				outports.append(block)
-		return outports
+		return sorted(outports, key=lambda b: int(b.port))
 
 	def getblocksbytype(self,type):
 	# return a list of blocks with a given type : 'Sum', 'Delay', ...
@@ -373,11 +373,8 @@ class System(object):
 		x = [b.name for b in self.getblocksbytype('Delay')]
 		# t and y are modified so we rely on equation list ( this hold final result on block diag processing)
 		sum = [self.getblockbysid(teq.out) for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
-		t = [bs.name for bs in sum if  bs.isoutblock() == False]
-		y = [bs.name for bs in sum if  bs.isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in self.equations if self.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  self.getblockbysid(s).isoutblock() == True]
+		t = [bs.name for bs in sum]
+		y = [b.name for b in self.getoutblocks()]
 		return (u,x,t,y)
 
 	
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 5efcd82..0193443 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -46,63 +46,16 @@ class Sif(object):
 		u = [u.sid for u in system.getinblocks()]
 		x = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Delay']
 		sum = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
-		t = [s for s in sum if  system.getblockbysid(s).isoutblock() == False]
-		y = [s for s in sum if  system.getblockbysid(s).isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  system.getblockbysid(s).isoutblock() == True]
+		t = sum
+		y = [b.sid for b in system.getoutblocks()]
 
 		# TODO: dirty work, just for test, clean useless variables and computation
 		# for block labeling : type+sid
 		self.u = [system.getblockbysid(i).label for i in u]
 		self.x = [system.getblockbysid(i).label for i in x]
 		self.t = [system.getblockbysid(i).label for i in t]
-		self.y = ["y"+system.getblockbysid(i).label[1:] for i in y]
+		self.y = [system.getblockbysid(i).label for i in y]
 
-		# ________________________________________________________
-		#
-		# patch if there is output in the termes of the equations
-		# blocks list
-		bsids = []
-		for block in system.blocks:
-			bsids.append(block)
-		# get a new free SID
-		def get_new_sid(sids):
-			nb = len(sids) + 2
-			for tsid in range(1,nb):
-				if tsid not in sids:
-					sid = tsid
-			sids.append(sid) #update local blocks list
-			return str(sid) 
-		# correct equations
-		for outb in y:
-			for eq in system.equations:
-				feedback = False
-				for block in eq.termes:
-					if block == outb:
-						feedback = True
-						break	
-				if feedback:
-					t.append(outb)
-					y.remove(outb)
-					new_out = get_new_sid(bsids)
-					#bsids.append(new_out) #update done in get_new_sid()
-					# add a new equation
-					neweq=Equation(new_out)
-					neweq.termes[outb] = 1.0
-					system.equations.append(neweq)
-					y.append(new_out)
-					#correct matrix size
-					self.l +=1
-					def mat( a, b):
-						m = [[0.0 for i in range(b)] for j in range(a) ]
-						return m
-					self.J = mat(self.l,self.l)
-					self.K = mat(self.n,self.l) 
-					self.L = mat(self.p,self.l)
-					self.M = mat(self.l,self.n)
-					self.N = mat(self.l,self.m)
-					break
 		# for block labeling : type+sid
 		self.u = ["u"+str(i) for i in u] #[system.getblockbysid(i).label for i in u]
 		self.x = ["x"+str(i) for i in x] #[system.getblockbysid(i).label for i in x]
-- 
2.43.0


From 7cb421616d50ea780eac4c9d81a62ffa750aa9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 75/96] fix: the inputs of the Simulink diagrams are in the
 order of their numbers

---
 fixif/Structures/Simulink/diagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 295daba..52cecba 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -331,7 +331,7 @@ class System(object):
 			block = self.getblockbysid(sid)
 			if block.type == 'Inport':
 				inports.append(block)
-		return inports
+		return sorted(inports, key=lambda b: int(b.port))
 	
 	def getoutblocks(self):
 	# return a list of all Outports blocks
-- 
2.43.0


From 453c267060572ed5512762589b1c5d9fa6cadb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 76/96] fix: delays of several samples in the Simulink diagrams
 (they were considered as unit delays)

---
 fixif/Structures/Simulink/diagram.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 52cecba..425445a 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -13,6 +13,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 import sys
+from copy import copy
 from lxml import etree
 from fixif.Structures.Simulink.blocks import *
 
@@ -35,6 +36,7 @@ class System(object):
 		# For the given system model, build blocks and lines list
 		self.blocks, self.lines = self.parsesys(self.tree, self.syspath)
 		self.flattendesign() # eliminate subsys block box 
+		self.splitdelays() # the delays of several samples are chains of unit delays
 		self.fillblocksiolist() # update in/out blocks list of all blocks
 		self.equations = self.buildequations() # build a simplified relationship of all blocks
 
@@ -200,6 +202,26 @@ class System(object):
 
 
 
+	def splitdelays(self):
+		""" Replace the delays of several samples by chains of unit delays
+			(the last one keeps the sid of the initial block)"""
+		for block in self.getblocksbytype('Delay'):
+			if block.delay < 1:
+				raise ValueError("importSimulink: the delay of the block %s should be at least 1" % block.name)
+			while block.delay > 1:
+				block.delay -= 1
+				newblock = copy(block)
+				newblock.delay, newblock.inlist, newblock.outlist = 1, {}, []
+				newblock.sid = "%s_%d" % (block.sid, block.delay)
+				newblock.label = "x" + newblock.sid
+				self.blocks[newblock.sid] = newblock
+				for line in self.lines:
+					if line.dstsid == block.sid:
+						line.dstsid = newblock.sid
+				self.lines.append(Line(newblock.sid + "#out:1", block.sid + "#in:1"))
+
+
+
 	def fillblocksiolist(self):
 		""" Update blocks inlist and outlist attribute : linked blocks
 			inlist : list (dict) of all blocks connected to input ports
-- 
2.43.0


From ed3b64144d21340c228253937ff055b45da7485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 77/96] fix: algebraic loops are reported (sys was not
 imported)

---
 fixif/Structures/Simulink/sif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 0193443..f944e3e 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -14,7 +14,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
-from fixif.Structures.Simulink.diagram import Equation
+import sys
 
 class Sif(object):
 	def __init__(self, l, m, n, p):
-- 
2.43.0


From a7defadeec0f6ff53dacec1c81b1cc3f96d31df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 78/96] fix: Simulink diagrams without delay or without sum
 (sizes of the empty matrices)

---
 fixif/Structures/Simulink/Simulink.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/Structures/Simulink/Simulink.py b/fixif/Structures/Simulink/Simulink.py
index 3dcc0d4..1007fa9 100755
--- a/fixif/Structures/Simulink/Simulink.py
+++ b/fixif/Structures/Simulink/Simulink.py
@@ -86,10 +86,10 @@ def importSimulink(fileName, constants=None):
     print("inter t", t)
     print("output y", y)
 
-    return Realization(None,
-                       (mat(mysif.J, dtype='float'), mat(mysif.K, dtype='float'), mat(mysif.L, dtype='float'),
-                        mat(mysif.M, dtype='float'), mat(mysif.N, dtype='float'), mat(mysif.P, dtype='float'),
-                        mat(mysif.Q, dtype='float'), mat(mysif.R, dtype='float'), mat(mysif.S, dtype='float')),
+    # matrices J to S (with their sizes, some of them may be empty)
+    sizes = {'J': (mysif.l, mysif.l), 'K': (n, mysif.l), 'L': (p, mysif.l), 'M': (mysif.l, n), 'N': (mysif.l, m),
+             'P': (n, n), 'Q': (n, m), 'R': (p, n), 'S': (p, m)}
+    return Realization(None, tuple(mat(getattr(mysif, X), dtype='float').reshape(sizes[X]) for X in 'JKLMNPQRS'),
                        structureName='Simulink (%s)' % fileName)
 
 # TODO
-- 
2.43.0


From fcb02464307720864b0156747a8bfa8bfacdec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 79/96] fix: Simulink diagrams where a sum depends directly on
 itself are rejected like the other algebraic loops (the loop was ignored)

---
 fixif/Structures/Simulink/sif.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index f944e3e..1a2b5ac 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -98,6 +98,9 @@ class Sif(object):
 		for i in range(self.l):
 			for j in range(self.l):
 				if i == j:
+					if self.J[i][j] != 0: # the variable depends on itself
+						print("\nerror - algebraic loop !!!")
+						sys.exit()
 					self.J[i][j] = 1.0 
 
 	
-- 
2.43.0


From 55139aa3476a5c50806ebe3847c659a8c3cee7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 80/96] fix: dSS.to_dTF keeps the numerators of systems with
 very small or very large gains (e.g. narrow Butterworth filters)

---
 fixif/LTI/dSS.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index ac36148..8aceacb 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -18,7 +18,7 @@ __status__ = "Beta"
 from copy import copy
 from numpy import empty, float64, identity, dot, array
 from numpy import matrix as mat, set_printoptions
-from numpy import eye, zeros, r_, c_, sqrt
+from numpy import eye, zeros, r_, c_, sqrt, log2
 from numpy.linalg import inv, solve, norm
 from numpy.linalg.linalg import LinAlgError
 from scipy.linalg import solve_discrete_lyapunov
@@ -570,8 +570,11 @@ class dSS(object):
 		if self._p != 1 or self._q != 1:
 			raise ValueError('dSS: the state-space must be SISO to be converted in transfer function')
 		from fixif.LTI import dTF
-		num, den = ss2tf(self._A, self._B, self._C, self._D)
-		return dTF(num[0], den)
+		# (the numerator is computed as a difference with the denominator: the gain is scaled around 1, so that a very small or very large one is not lost)
+		gain = max(abs(self._C).sum() * abs(self._B).sum(), abs(self._D).max())
+		scale = 2.**round(log2(gain)) if 0 < gain < numpy.inf else 1.
+		num, den = ss2tf(self._A, self._B, self._C / scale, self._D / scale)
+		return dTF(num[0] * scale, den)
 
 	def simplify(self):
 		"""
-- 
2.43.0


From 65ced79319470fb7ffa9fd30c1b5acc74866ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 81/96] fix: dTF.to_dSS('obs') keeps the first coefficients of
 the numerator when they are very small

---
 fixif/LTI/dTF.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 797ee7e..89d627a 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -18,8 +18,8 @@ __status__ = "Beta"
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
 from numpy import matrix as mat, convolve, polyadd
-from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
-from scipy.signal import tf2ss, TransferFunction, dbode
+from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr, eye
+from scipy.signal import TransferFunction, dbode
 from scipy.linalg import norm
 
 
@@ -155,8 +155,11 @@ class dTF(object):
 			C = mat(fliplr(self.num[0, 1:]) - fliplr(self.den[0, 1:])*self.num[0, 0])
 			D = mat(atleast_2d(self.num[0, 0]))
 		elif form == 'obs':
-			# TODO: to it manually!!
-			A, B, C, D = tf2ss(array(self.num)[0, :], array(self.den)[0, :])
+			# (not with scipy's tf2ss, that drops the first coefficients of the numerator when they are lower than 1e-14)
+			A = mat(r_[-self.den[:, 1:], eye(self.order-1, self.order)])
+			B = mat(eye(self.order, 1))
+			C = mat(self.num[0, 1:] - self.den[0, 1:]*self.num[0, 0])
+			D = mat(atleast_2d(self.num[0, 0]))
 		else:
 			raise ValueError('dTF.to_dSS: the form "%s" is invalid (must be "ctrl" or "obs")' % form)
 
-- 
2.43.0


From 1582f61093b3fa956fcab2c0de254b004d0c836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 82/96] fix: random_Butter and random_Elliptic loop forever
 when the first frequency is drawn above the range of the second one

---
 fixif/LTI/Butter.py   | 2 ++
 fixif/LTI/Elliptic.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 6cb78d7..4640b46 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -99,6 +99,8 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		if W2[1] <= W1[0]:
 			raise ValueError("iter_random_Butter: W1 should be lower than W2")
 		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
+		while Wn1 >= W2[1]:		# no second frequency would be possible
+			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index e4802b1..465118d 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -110,6 +110,8 @@ def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.
 		if W2[1] <= W1[0]:
 			raise ValueError("iter_random_Elliptic: W1 should be lower than W2")
 		Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
+		while Wn1 >= W2[1]:		# no second frequency would be possible
+			Wn1 = (W1[1] - W1[0]) * random_sample() + W1[0]
 		Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
 		while Wn2 <= Wn1:
 			Wn2 = (W2[1] - W2[0]) * random_sample() + W2[0]
-- 
2.43.0


From fb32a19f2f24a1621b4cd41c8a3c94c473366e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 83/96] fix: dTF.to_dSS: the form 'obs' is the observable
 canonical form (it was a controllable one)

---
 fixif/LTI/dTF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 89d627a..458d36c 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -156,9 +156,9 @@ class dTF(object):
 			D = mat(atleast_2d(self.num[0, 0]))
 		elif form == 'obs':
 			# (not with scipy's tf2ss, that drops the first coefficients of the numerator when they are lower than 1e-14)
-			A = mat(r_[-self.den[:, 1:], eye(self.order-1, self.order)])
-			B = mat(eye(self.order, 1))
-			C = mat(self.num[0, 1:] - self.den[0, 1:]*self.num[0, 0])
+			A = mat(c_[-self.den[:, 1:].T, eye(self.order, self.order-1)])
+			B = mat(self.num[0, 1:] - self.den[0, 1:]*self.num[0, 0]).T
+			C = mat(eye(1, self.order))
 			D = mat(atleast_2d(self.num[0, 0]))
 		else:
 			raise ValueError('dTF.to_dSS: the form "%s" is invalid (must be "ctrl" or "obs")' % form)
-- 
2.43.0


From 8c5f4f8dc3d5ec0efd5fa2cfd5ac1d2ac916889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 84/96] fix: gabarit.sol is found whatever the current
 directory

---
 fixif/LTI/Gabarit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index e993875..e5732ea 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -15,6 +15,8 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
+import os
+
 from fixif.LTI import dTF
 from fixif.func_aux import MatlabHelper, isMatlabInstalled
 
@@ -191,7 +193,7 @@ class Gabarit(object):
 			Gabarit.isSollyaRunning = True
 			try:
 				sollya.suppressmessage(57, 174, 130, 457)
-				sollya.execute("fixif/LTI/gabarit.sol")
+				sollya.execute(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gabarit.sol"))
 			except NameError:
 				raise ValueError("Sollya and SollyaPython are not installed !")
 
-- 
2.43.0


From 3dafe5ef85f7366723d515b90d6227eb412b8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 85/96] fix: Gabarit.findMinimumMargin: the distance to the
 lower gain of a pass band was computed from its upper gain

---
 fixif/LTI/Gabarit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index e5732ea..4d74cb6 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -508,9 +508,9 @@ def findMaxIssue(res):
 				H = dict(i)["H"]
 				betaInf = dict(dict(i)["specification"])["betaInf"]
 				betaSup = dict(dict(i)["specification"])["betaSup"]
-				if sollya.inf(H) > betaSup:
+				if sollya.sup(H) > betaSup:
 					maxError = sollya.max(maxError, sollya.sup(H) - betaSup)
-				else:
-					maxError = sollya.max(maxError, betaSup - sollya.inf(H))
+				if sollya.inf(H) < betaInf:
+					maxError = sollya.max(maxError, betaInf - sollya.inf(H))
 
 	return maxError
-- 
2.43.0


From aa9558d696bed4f443b43f95ca7dbd2c8135d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 86/96] fix: Gabarit: ValueError each time that Sollya is
 needed and not installed (only the first time before)

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 4d74cb6..d4ded23 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -190,12 +190,12 @@ class Gabarit(object):
 		"""load gabarit.sol and check if ready/ok"""
 
 		if not Gabarit.isSollyaRunning:
-			Gabarit.isSollyaRunning = True
 			try:
 				sollya.suppressmessage(57, 174, 130, 457)
 				sollya.execute(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gabarit.sol"))
 			except NameError:
 				raise ValueError("Sollya and SollyaPython are not installed !")
+			Gabarit.isSollyaRunning = True
 
 
 
-- 
2.43.0


From 05809cca16083874a81ac3801137a138d3be96c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 87/96] fix: Gabarit.plot with normalised frequencies (Fs=None)
 and a transfer function

---
 fixif/LTI/Gabarit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index d4ded23..6e487a1 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -356,11 +356,12 @@ class Gabarit(object):
 		minG = -200
 		if tf:
 			w, h = freqz(tf.num.transpose(), tf.den.transpose())
+			Fs = self._Fs if self._Fs else 2
 			if dB:
-				plt.plot((self._Fs * 0.5 / pi) * w, 20*log10(abs(h)))
+				plt.plot((Fs * 0.5 / pi) * w, 20*log10(abs(h)))
 				minG = min(20 * log10(abs(h)))
 			else:
-				plt.plot((self._Fs * 0.5 / pi)*w, abs(h))
+				plt.plot((Fs * 0.5 / pi)*w, abs(h))
 
 
 		currentAxis = plt.gca()
-- 
2.43.0


From 383e2a15cec0b578d7be07ebbc86e1bb6ba6c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 88/96] fix: Gabarit.plot draws the stop bands below their gain
 when the response is everywhere above 0dB, or has zeros on the unit circle

---
 fixif/LTI/Gabarit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 6e487a1..7a7001b 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -21,7 +21,7 @@ from fixif.LTI import dTF
 from fixif.func_aux import MatlabHelper, isMatlabInstalled
 
 from scipy.signal import iirdesign, freqz
-from numpy import array, pi, log10, infty
+from numpy import array, pi, log10, infty, isfinite
 from numpy.random import seed as set_seed, choice, randint, uniform
 
 import matplotlib.pyplot as plt
@@ -358,8 +358,9 @@ class Gabarit(object):
 			w, h = freqz(tf.num.transpose(), tf.den.transpose())
 			Fs = self._Fs if self._Fs else 2
 			if dB:
-				plt.plot((Fs * 0.5 / pi) * w, 20*log10(abs(h)))
-				minG = min(20 * log10(abs(h)))
+				gain = 20*log10(abs(h))
+				plt.plot((Fs * 0.5 / pi) * w, gain)
+				minG = min([minG] + list(gain[isfinite(gain)]))
 			else:
 				plt.plot((Fs * 0.5 / pi)*w, abs(h))
 
-- 
2.43.0


From f9b9febe12500039dbe365cb56a2dcbab3d81650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 89/96] fix: dTFmp.to_Sollya: sollya was not imported

---
 fixif/LTI/dTFmp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 02828b5..9d3fe3c 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -156,6 +156,10 @@ class dTFmp(object):
 		- num, den: (sollya object) numerator and denominator of the transfer function
 		"""
 		if not self._sollya:
+			try:
+				import sollya
+			except ImportError:
+				raise ImportError("Sollya and SollyaPython are required (but not installed) !")
 			tf_num_sollya, len_num, _ = mpf_matrix_to_sollya(self._num)
 			tf_den_sollya, len_den, _ = mpf_matrix_to_sollya(self._den)
 			num = sollya.horner(sum(sollya.SollyaObject(x) * sollya._x_ ** i for i, x in enumerate(tf_num_sollya)))
-- 
2.43.0


From ea5f2b9fd166526cf8466e9bc07188318c58ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 90/96] fix: dSSmp.WCPGmp: wcpg.sol is found (wrong name of
 package), whatever the current directory

---
 fixif/LTI/dSSmp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 19970fc..ec832d6 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -10,6 +10,8 @@ __maintainer__ = "Anastasia Volkova"
 __email__ = "Anastasia.Volkova@lip6.fr"
 __status__ = "Beta"
 
+import os
+
 import mpmath
 import numpy
 
@@ -355,7 +357,7 @@ class dSSmp(object):
 
 		# load gabarit.sol
 		# sollya.suppressmessage(57, 174, 130, 457)
-		sollya.execute("fipogen/LTI/wcpg.sol")
+		sollya.execute(os.path.join(os.path.dirname(os.path.abspath(__file__)), "wcpg.sol"))
 
 		wcpg = sollya.parse("wcpg")
 
-- 
2.43.0


From 330d4bec85a98818fcd60dcc7aae517a16b035e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 91/96] fix: dTF.bode works with the recent versions of
 matplotlib (argument b of grid)

---
 fixif/LTI/dTF.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 458d36c..f7e68d3 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -202,15 +202,15 @@ class dTF(object):
 		plt.subplot(2, 1, 1)
 		plt.semilogx(w, mag, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.ylabel('Magnitude (dB)')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.subplot(2, 1, 2)
 		plt.semilogx(w, phase, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.ylabel('Phase')
 		plt.xlabel('Frequency ($rad.s^{-1}$)')
-- 
2.43.0


From c76f254fe1350e0ff95a1ee00d2b881569bf1dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 92/96] fix: MatlabHelper: a unique engine is started, double
 and MatlabExecutionError are defined

---
 fixif/func_aux/MatlabHelper.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fixif/func_aux/MatlabHelper.py b/fixif/func_aux/MatlabHelper.py
index 7339356..b027c7f 100644
--- a/fixif/func_aux/MatlabHelper.py
+++ b/fixif/func_aux/MatlabHelper.py
@@ -28,11 +28,11 @@ class MatlabHelper(object):
 		Connect to the matlab engine
 		:param raiseError: True if an error is raise when matlab and the engine are not installed
 		"""
-		# try to import the matlab engine
+		# try to import the matlab engine (started only once)
 		try:
-			from matlab.engine import start_matlab, MatlabExecutionError
-			from matlab import double as matlab_double
-			self._engine = start_matlab()
+			from matlab.engine import start_matlab
+			if MatlabHelper._engine is None:
+				MatlabHelper._engine = start_matlab()
 		except ImportError:
 			if raiseError:
 				raise ValueError("Matlab and the matlab python engine are not working correctly (may be not installed")
@@ -50,9 +50,11 @@ class MatlabHelper(object):
 			return getattr(self._engine, name)
 
 	def double(self):
+		from matlab import double as matlab_double
 		return matlab_double
 
 	def MatlabExecutionError(self):
+		from matlab.engine import MatlabExecutionError
 		return MatlabExecutionError
 
 
-- 
2.43.0


From 5485c58e39181a3c00f3409bcb69fa80a70f0c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 93/96] fix: LWDF: the Matlab files are found whatever the
 current directory

---
 fixif/Structures/LWDF/LWDF.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LWDF/LWDF.py b/fixif/Structures/LWDF/LWDF.py
index 7080dde..7b7f3a7 100644
--- a/fixif/Structures/LWDF/LWDF.py
+++ b/fixif/Structures/LWDF/LWDF.py
@@ -16,6 +16,8 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
+import os
+
 from fixif.Structures.Structure import Structure
 from numpy import matrix as mat
 from fixif.func_aux import MatlabHelper, isMatlabInstalled
@@ -29,9 +31,10 @@ def makeLWDF(filt):
 	# connect to matlab if not already connected
 	MH = MatlabHelper(raiseError=True)
 	# add path to matlab files
-	MH.addpath('fixif/Structures/LWDF/matlab')
+	path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'matlab')
+	MH.addpath(path)
 	# path to the LWDF matlab toolbox from TU Delf (http://www.latech.nl/mtbx)
-	MH.addpath('fixif/Structures/LWDF/matlab/wdf_tbx')
+	MH.addpath(os.path.join(path, 'wdf_tbx'))
 	# call the TF2LWDF2SIF matlab function
 	from matlab import double as m_double
 	R = MH.TF2LWDF2SIF(m_double(filt.dTF.num.tolist()), m_double(filt.dTF.den.tolist()))
-- 
2.43.0


From a46d1327bf44a1cd0667593bdf5986ded6567d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 94/96] fix: dSSmp.to_dTFmp left the mpmath precision modified
 when the conversion was not possible

---
 fixif/LTI/dSSmp.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index ec832d6..83ce2a7 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -297,9 +297,15 @@ class dSSmp(object):
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
-		oldprec = mpmath.mp.prec
-		mpmath.mp.prec = prec
+		# (the precision is restored even if the conversion is not possible)
+		with mpmath.workprec(prec):
+			b, a = self._computeTF(prec)
 
+		return dTFmp(b, a)
+
+
+	def _computeTF(self, prec):
+		"""Compute (in the current mpmath precision) the numerator and denominator of the transfer function of a SISO system"""
 		E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
 		Cmp = self.C * V
 		Vinv = mpmath.mp.inverse(V)
@@ -331,8 +337,7 @@ class dSSmp(object):
 			a[i, 0] = Q[i, 0].real
 			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
 
-		mpmath.mp.prec = oldprec
-		return dTFmp(b, a)
+		return b, a
 
 	def WCPGmp(self, delta=2**-53):
 		"""
-- 
2.43.0


From 251f97a51a8a0b1b16741f5eb44bc82ae5205ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 95/96] fix: dSS Gramians: the LinAlgError raised for a
 Lyapunov equation without a unique solution replaced by an AttributeError

---
 fixif/LTI/dSS.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 8aceacb..a0bc058 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -208,13 +208,8 @@ class dSS(object):
 				self._Wo = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wo: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				# (the exceptions raised by scipy/numpy have no `info` attribute)
+				raise LinAlgError("dSS: Wo: scipy Linalg failed to compute eigenvalues of Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
@@ -284,13 +279,8 @@ class dSS(object):
 				self._Wc = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wc: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				# (the exceptions raised by scipy/numpy have no `info` attribute)
+				raise LinAlgError("dSS: Wc: scipy Linalg failed to compute eigenvalues of Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
-- 
2.43.0


From ba2ef244c499c326c097ced50ffd6485a6e1bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 96/96] fix: Gabarit.__str__: the seed 0 was not displayed

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 7a7001b..c0302f9 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -226,7 +226,7 @@ class Gabarit(object):
 		self._seed = seed
 
 	def __str__(self):
-		seed = "Seed=%s\n" % (self._seed,) if self._seed else ""
+		seed = "Seed=%s\n" % (self._seed,) if self._seed is not None else ""
 		return "%sType: %s (Fs=%sHz)\n%s" % (seed, self.type, self._Fs, "\n".join(str(b) for b in self._bands))
 
 	@property
-- 
2.43.0

