"""
Stand-in for the external `sollya` python bindings (not installed here): exact rational arithmetic, polynomials, and the
procedures of the Sollya scripts of FiXiF that are used from python (the scripts themselves cannot run here: a procedure
can be called once a script that defines it has been executed, and does here what its documentation says).
"""
from fractions import Fraction
import builtins as _b
import math as _math
import re as _re
import mpmath as _mpmath

RN, RU, RD, RZ = 'RN', 'RU', 'RD', 'RZ'

def _irrational(x):
	"""mpmath number -> Fraction"""
	s, m, e, _ = x._mpf_
	v = Fraction(int(m)) * Fraction(2) ** int(e)
	return -v if s else v

class Poly(object):
	"""polynomial: list of Fractions (i-th: coefficient of x^i)"""
	def __init__(self, c):
		self.c = [Fraction(x) for x in c]

	@staticmethod
	def _of(o):
		return o if isinstance(o, Poly) else Poly([SollyaObject(o).v])

	def __add__(self, o):
		o = Poly._of(o)
		n = _b.max(len(self.c), len(o.c))
		f = lambda l: l + [Fraction(0)] * (n - len(l))
		return Poly([a + b for a, b in zip(f(self.c), f(o.c))])
	__radd__ = __add__

	def __mul__(self, o):
		o = Poly._of(o)
		r = [Fraction(0)] * (len(self.c) + len(o.c) - 1)
		for i, a in enumerate(self.c):
			for j, b in enumerate(o.c):
				r[i + j] += a * b
		return Poly(r)
	__rmul__ = __mul__

	def __pow__(self, n):
		r = Poly([1])
		for _ in range(int(n)):
			r = r * self
		return r

_x_ = Poly([0, 1])

class SollyaObject(object):
	def __init__(self, x):
		if isinstance(x, SollyaObject):
			self.v = x.v
		elif isinstance(x, float):
			self.v = Fraction(float(x)) if _math.isfinite(x) else float(x)
		else:
			self.v = Fraction(int(x)) if not isinstance(x, Fraction) else x

	def _b(self, o):
		return o if isinstance(o, SollyaObject) else SollyaObject(o)

	def __mul__(self, o):
		if isinstance(o, Poly):
			return o * self
		return SollyaObject(self.v * self._b(o).v)
	__rmul__ = __mul__

	def __truediv__(self, o):
		return SollyaObject(self.v / self._b(o).v)

	def __rtruediv__(self, o):
		return SollyaObject(self._b(o).v / self.v)

	def __add__(self, o):
		if isinstance(o, Poly):
			return o + self
		return SollyaObject(self.v + self._b(o).v)
	__radd__ = __add__

	def __sub__(self, o):
		return SollyaObject(self.v - self._b(o).v)

	def __rsub__(self, o):
		return SollyaObject(self._b(o).v - self.v)

	def __neg__(self):
		return SollyaObject(-self.v)

	def __abs__(self):
		return SollyaObject(abs(self.v))

	def __pow__(self, o):
		e = self._b(o).v
		if e.denominator == 1:
			return SollyaObject(self.v ** int(e))
		with _mpmath.workprec(400):
			q = lambda f: _mpmath.mpf(f.numerator) / f.denominator
			return SollyaObject(_irrational(q(self.v) ** q(e)))

	def __rpow__(self, o):
		return self._b(o).__pow__(self)

	def __eq__(self, o):
		return self.v == self._b(o).v

	def __lt__(self, o):
		return self.v < self._b(o).v

	def __le__(self, o):
		return self.v <= self._b(o).v

	def __gt__(self, o):
		return self.v > self._b(o).v

	def __ge__(self, o):
		return self.v >= self._b(o).v

	def __hash__(self):
		return hash(self.v)

	def __float__(self):
		return float(self.v)

	def __str__(self):
		return str(self.v)
	__repr__ = __str__

with _mpmath.workprec(400):
	pi = SollyaObject(_irrational(+_mpmath.pi))

class Interval(object):
	def __init__(self, a, b=None):
		self.a, self.b = SollyaObject(a), SollyaObject(a if b is None else b)

def inf(x):
	return x.a if isinstance(x, Interval) else SollyaObject(x)

def sup(x):
	return x.b if isinstance(x, Interval) else SollyaObject(x)

def mid(x):
	return (inf(x) + sup(x)) / 2

def max(*l):
	return _b.max((SollyaObject(x) for x in l), key=lambda x: x.v)

def min(*l):
	return _b.min((SollyaObject(x) for x in l), key=lambda x: x.v)

def horner(p):
	return p

def round(x, prec, mode=RN):
	"""round on prec bits (to nearest even, upward, downward)"""
	v = SollyaObject(x).v
	if v == 0 or not isinstance(v, Fraction):
		return SollyaObject(v)
	e = abs(v).numerator.bit_length() - abs(v).denominator.bit_length()
	if abs(v) < Fraction(2) ** e:
		e -= 1
	ulp = Fraction(2) ** (e - prec + 1)
	k = v / ulp
	n = {RN: _b.round, RU: _math.ceil, RD: _math.floor, RZ: _math.trunc}[mode](k)
	return SollyaObject(n * ulp)

def suppressmessage(*l):
	pass

_known = set()

def execute(filename):
	"""a file that does not exist: only a warning, as in Sollya"""
	try:
		with open(filename) as f:
			_known.update(_re.findall(r'^\s*procedure\s+(\w+)', f.read(), _re.M))
	except IOError:
		pass

def parse(name):
	if name not in _known:
		raise ValueError("sollya: the identifier %s is neither assigned to, nor bound to a library function" % name)
	return globals()['_proc_' + name]

def _modulus(num, den, w):
	import numpy as np
	z = np.exp(-1j * w)
	f = lambda p: np.polyval(np.array([float(x) for x in p.c][::-1]), z)
	return np.abs(f(num) / f(den))

GRID = 1501

def _proc_checkModulusFilterInSpecification(num, den, constraints, prec):
	"""Is the modulus of num/den on the unit circle between betaInf and betaSup for each of the constraints ?"""
	import numpy as np
	assert int(prec) >= 12
	results = []
	for s in constraints:
		lo, hi = float(inf(s["Omega"])), float(sup(s["Omega"]))
		w = np.linspace(lo, hi, GRID)
		h = _modulus(num, den, w * float(s["omegaFactor"]))
		bi, bs = SollyaObject(s["betaInf"]).v, SollyaObject(s["betaSup"]).v
		bad = [not (bi <= Fraction(float(x)) <= bs) for x in h]
		issues = []
		i = 0
		while i < GRID:
			if bad[i]:
				j = i
				while j + 1 < GRID and bad[j + 1]:
					j += 1
				k = _b.max(range(i, j + 1), key=lambda k: _b.max(Fraction(float(h[k])) - bs, bi - Fraction(float(h[k]))))
				issues.insert(0, {"specification": s, "subdomainOmega": Interval(float(w[i]), float(w[j])), "subdomainOmegaFactor": s["omegaFactor"],
					"omega": Interval(float(w[k])), "omegaFactor": s["omegaFactor"], "H": Interval(float(h[k]))})
				i = j
			i += 1
		results.insert(0, {"okay": not issues, "issue": issues, "specification": s})
	return {"okay": all(r["okay"] for r in results), "results": results, "a": den, "b": num, "specifications": constraints}

def _proc_presentResults(res):
	pass

def _proc_wcpg(A, B, C, D, n, p, q, eps):
	"""worst-case peak gain (list, row by row), with an absolute error lower than eps"""
	n, p, q = int(n), int(p), int(q)
	eps = float(eps)
	assert len(A) == n * n and len(B) == n * q and len(C) == p * n and len(D) == p * q and eps > 0
	with _mpmath.workprec(400):
		def mat(l, r, c):
			f = lambda x: _mpmath.mpf(SollyaObject(x).v.numerator) / SollyaObject(x).v.denominator
			return _mpmath.matrix([[f(l[i * c + j]) for j in range(c)] for i in range(r)])
		A, X, C, W = mat(A, n, n), mat(B, n, q), mat(C, p, n), mat(D, p, q).apply(abs)
		small = 0
		for k in range(20000):
			H = C * X
			W = W + H.apply(abs)
			X = A * X
			m = _b.max(abs(x) for x in X) if n else 0
			small = small + 1 if m < eps * _mpmath.mpf(2) ** -100 else 0
			if small > 3:
				break
		else:
			raise ValueError("wcpg: unstable system")
		return [SollyaObject(_irrational(W[i, j])) for i in range(p) for j in range(q)]
