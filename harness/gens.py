# coding: utf-8
"""Generators (Hypothesis strategies of plain JSON values)."""
from hypothesis import strategies as st

SPECIAL = ['nan', 'inf', '-inf']

def mants(maxbits=200):
	return st.one_of(st.integers(-20, 20), st.integers(-2 ** 53, 2 ** 53), st.integers(-2 ** maxbits, 2 ** maxbits))

def ties(maxexp=1500):
	"""close to (or exactly) the middle of two consecutive doubles"""
	return st.tuples(st.integers(2 ** 52, 2 ** 53 - 1), st.integers(0, 90), st.sampled_from([-1, 0, 1]), st.sampled_from([1, -1]), st.integers(-min(maxexp, 500), min(maxexp, 500))).map(
		lambda t: (t[3] * (((2 * t[0] + 1) << t[1]) + (t[2] if t[1] else 0)), t[4]))

def dyads(maxbits=200, maxexp=1500):
	"""[m, e] standing for m*2^e"""
	return st.one_of(
		st.tuples(st.integers(-8, 8), st.integers(-4, 4)),
		st.sampled_from([(0, 0), (1, 0), (-1, 0), (1, 0), (2, 0), (1, -1)]),
		ties(maxexp),
		st.tuples(mants(maxbits), st.integers(-60, 60)),
		st.tuples(st.integers(-9, 9), st.sampled_from([-maxexp, maxexp])),
		st.tuples(mants(maxbits), st.integers(-maxexp, maxexp))).map(list)

def floats(mag=1e300):
	return st.one_of(st.sampled_from([0., 1., -1., 0.5, 2., -0.25, 3.]), st.floats(-16, 16), st.floats(-mag, mag, allow_nan=False))

def mat(elem, m, n):
	return st.lists(st.lists(elem, min_size=n, max_size=n), min_size=m, max_size=m)

precs = st.sampled_from([53, 53, 2, 10, 24, 100, 300])
