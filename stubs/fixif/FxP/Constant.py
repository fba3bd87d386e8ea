from fractions import Fraction
from fixif.FxP.FPF import FPF

def _round_half_even(x):
	return round(x)

class Constant(object):
	"""
	Fixed-point approximation (2's complement, round to nearest) of a real constant on wl bits:
	the most accurate mantissa*2^lsb with mantissa in [-2^(wl-1); 2^(wl-1)-1]
	"""
	def __init__(self, value, wl=None, signed=True, msb=None, lsb=None):
		self.value = value
		x = Fraction(float(value))
		wl = int(wl)
		lo, hi = (-(1 << (wl - 1)), (1 << (wl - 1)) - 1) if signed else (0, (1 << wl) - 1)
		if x == 0:
			self.FPF, self.mantissa, self.approx = FPF(msb=wl - 1, lsb=0), 0, 0.0
			return
		# smallest lsb such that the rounded mantissa fits
		l = -1200
		e = abs(x).numerator.bit_length() - abs(x).denominator.bit_length()
		l = e - wl - 2
		while True:
			m = _round_half_even(x / Fraction(2) ** l)
			if lo <= m <= hi:
				break
			l += 1
			if l > e + 4:      # a positive constant on 1 bit
				m = hi
				break
		self.mantissa = m
		self.approx = float(Fraction(m) * Fraction(2) ** l)
		self.FPF = FPF(msb=l + wl - 1, lsb=l, signed=signed)

	def __repr__(self):
		return "Constant(%r ~ %r)" % (self.value, self.approx)
