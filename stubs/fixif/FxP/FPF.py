class FPF(object):
	"""Fixed-Point Format (msb, lsb) of a signed number; wl = msb-lsb+1"""
	def __init__(self, wl=None, msb=None, lsb=None, signed=True):
		if wl is not None:
			if msb is None:
				msb = wl + lsb - 1
			elif lsb is None:
				lsb = msb - wl + 1
		if msb is None or lsb is None or msb < lsb:
			raise ValueError("FPF: invalid format")
		self.msb, self.lsb, self.signed = int(msb), int(lsb), signed

	@property
	def wl(self):
		return self.msb - self.lsb + 1

	def wml(self):
		return self.wl, self.msb, self.lsb

	def LaTeX(self, x_shift=0, y_origin=0, colors=None, hatches=None, **extra):
		return "FPF(%d,%d)@(%r,%r) colors=%r hatches=%r extra=%r" % (self.msb, self.lsb, x_shift, y_origin, colors, hatches, sorted(extra.items()))
