# coding: utf-8
"""C16: everything derived from the coefficients of a SIF stays consistent after any sequence of assignments and readings"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np
from oracle import *
import systems as sy, sifs
from fixif.SIF import SIF

check = Check('C16', assumptions=["the matrices assigned have the size of the matrix they replace and J stays unit lower triangular",
	"the assignment of coefficients redefines which coefficients are exactly represented (dZ), as for a new SIF"])

READS = ['AZDZ', 'Hu', 'Hepsilon', 'Hzeta', 'Gramians', 'tf_sensitivity', 'pole_sensitivity', 'ops', 'simulate', 'exact', 'norms', 'delta']

@st.composite
def histories(draw):
	c = draw(sifs.sif(l=(0, 4), n=(1, 5), p=(1, 4), q=(1, 4)) if sy.chance(draw, 8) else sifs.sif(l=(0, 2), n=(1, 3), p=(1, 2), q=(1, 2)))
	l, n, p, q = c['size']
	sh = dict(sifs.shapes(c), Z=(l + n + p, l + n + q))
	cur = {k: c[k] for k in sifs.NAMES}
	ops = []
	for _ in range(draw(st.sampled_from([1, 2, 4, 6, 6, 8, 8, 10]))):
		kind = draw(st.sampled_from(['set', 'set', 'set', 'tweak', 'tweak', 'read', 'read', 'read', 'read', 'stab', 'setZ', 'setd', 'setd', 'setdZ']))
		if kind == 'read':
			ops.append(['read', draw(st.sampled_from(READS))])
		elif kind == 'set':
			k = draw(st.sampled_from([x for x in sifs.NAMES if 0 not in sh[x]]))
			M = draw(mat(sifs.coef, *sh[k]))
			if k == 'J':
				M = [[1. if i == j else M[i][j] if j < i else 0. for j in range(l)] for i in range(l)]
			cur[k] = M
			ops.append(['set', k, M, draw(st.sampled_from(['matrix', 'array']))])
		elif kind == 'tweak':		# one coefficient only is modified, slightly or not
			k = draw(st.sampled_from([x for x in sifs.NAMES if 0 not in sh[x] and (x != 'J' or l > 1)]))
			M = [list(r) for r in cur[k]]
			i, j = (draw(st.integers(0, sh[k][0] - 1)), draw(st.integers(0, sh[k][1] - 1))) if k != 'J' else (l - 1, draw(st.integers(0, l - 2)))
			M[i][j] += draw(st.sampled_from([2. ** -20, -1., 1., 2. ** -26, 2. ** -9]))
			cur[k] = M
			ops.append(['set', k, M, draw(st.sampled_from(['matrix', 'array']))])
		elif kind == 'setZ':
			if draw(st.integers(0, 2)) == 0:		# the same matrix but for one coefficient, hardly modified
				new = dict(cur)
				k = draw(st.sampled_from([x for x in sifs.NAMES if x != 'J' and 0 not in sh[x]]))
				i, j = draw(st.integers(0, sh[k][0] - 1)), draw(st.integers(0, sh[k][1] - 1))
				M = [list(r) for r in cur[k]]
				M[i][j] = M[i][j] * draw(st.sampled_from([1 + 2. ** -40, 1 - 2. ** -50])) or 2. ** -40
				new[k] = M
			else:
				new = draw(sifs.sif(l=(l, l), n=(n, n), p=(p, p), q=(q, q)))
			cur = {k: new[k] for k in sifs.NAMES}
			ops.append(['setZ', {k: new[k] for k in sifs.NAMES}, draw(st.sampled_from(['matrix', 'array']))])
		elif kind == 'stab':
			A = matF(draw(sy.state_space(n=(n, n), p=(1, 1), q=(1, 1), dense=False))['A'])
			if l:
				A = subF(A, mulF(mulF(matF(cur['K']), sifs.invF(matF(cur['J']))), matF(cur['M'])))
			cur['P'] = [[float(x) for x in r] for r in A]
			ops.append(['set', 'P', cur['P'], 'matrix'])
		elif kind == 'setd':
			k = draw(st.sampled_from([x for x in sifs.NAMES if 0 not in sh[x]]))
			ops.append(['setd', k, draw(mat(st.integers(0, 1), *sh[k]))])
		else:
			ops.append(['setdZ', draw(mat(st.integers(0, 1), *sh['Z']))])
	return dict(c=c, ops=ops, int=draw(st.booleans()))


def blocks(Z, size):
	l, n, p, q = size
	r, s = [0, l, l + n, l + n + p], [0, l, l + n, l + n + q]
	pos = dict(J=(0, 0), K=(1, 0), L=(2, 0), M=(0, 1), N=(0, 2), P=(1, 1), Q=(1, 2), R=(2, 1), S=(2, 2))
	return {k: Z[r[a]:r[a + 1], s[b]:s[b + 1]] for k, (a, b) in pos.items()}


def radius(R):
	return max(abs(np.linalg.eigvals(R.AZ)))

def read(R, what, u, rad):
	"""list of arrays"""
	if what == 'AZDZ':
		return [R.AZ, R.BZ, R.CZ, R.DZ, R.invJ, R.dSS.A, R.dSS.B, R.dSS.C, R.dSS.D] + list(R.JtoS) + list(R.dJtodS)
	if what in ('Hu', 'Hepsilon', 'Hzeta'):
		H = getattr(R, what)
		return [H.A, H.B, H.C, H.D]
	if what == 'delta':
		H = R.computeDeltaSIF()
		return [H.Z, H.dZ, H.AZ, H.BZ, H.CZ, H.DZ]
	if what == 'Gramians':
		return [R.Wc, R.Wo] if rad < 0.93 else []
	if what == 'norms':
		return [[R.dSS.H2norm()], R.Hzeta.WCPG(), [R.Hepsilon.H2norm()], [R.Hu.H2norm()]] if rad < 0.93 else []
	if what == 'tf_sensitivity':
		if rad >= 0.93:
			return []
		M, MX = R.dTFsensitivity()
		return [[M], MX]
	if what == 'pole_sensitivity':
		ev = np.linalg.eigvals(R.AZ)
		if min(abs(ev)) < 1e-3 or any(abs(ev[i] - ev[j]) < 1e-3 for i in range(len(ev)) for j in range(i)):
			return []
		M, MX, _ = R.poleSensitivity()
		return [[M], MX]
	if what == 'ops':
		return [list(R.nbOp()), [bool(R.isPnut())]]
	if what == 'simulate':
		return [R.simulate(u)]
	if what == 'exact':
		S = R.to_dSSexact()
		return [[[float(x) for x in r] for r in matF(getattr(S, k))] for k in 'ABCD']


def same(R, ref, u, after='', order=READS):
	"""everything that is read from R is the same as for a new SIF"""
	rad = radius(ref)
	tiny = min([1.] + [abs(x) for x in np.array(ref.Z).flatten() if x]) ** 2		# (magnitude of the smallest products of coefficients)
	for what in order:
		a, b = read(R, what, u, rad), read(ref, what, u, rad)
		for i, (x, y) in enumerate(zip(a, b)):
			x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
			assert x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12 * (tiny + (np.abs(y).max() if y.size else 0))), "%s%s (%d): %s instead of %s (new SIF with the same matrices)" % (after, what, i, x.tolist(), y.tolist())
	return rad

@st.composite
def everything(draw):
	l, n, p, q = draw(st.tuples(st.integers(1, 2), st.integers(1, 3), st.integers(1, 2), st.integers(1, 2)))
	g = sifs.sif(l=(l, l), n=(n, n), p=(p, p), q=(q, q))
	stab = lambda: draw(sy.state_space(n=(n, n), p=(1, 1), q=(1, 1), dense=False))['A']
	return dict(c=draw(g), new=draw(g), A=[stab(), stab()], order=draw(st.permutations(READS)), first=draw(st.sampled_from([None, None, None, 1, 2, 5])), targets=draw(st.permutations(list(sifs.NAMES) + ['Z']))[:4])

def stabilized(c, A):
	"""the same coefficients, with P such that AZ = A (P is rounded)"""
	M = subF(matF(A), mulF(mulF(matF(c['K']), sifs.invF(matF(c['J']))), matF(c['M'])))
	return dict(c, P=[[float(x) for x in r] for r in M])

@check.part(everything(), quick=80, thorough=2000, shards=(4, 8), rule="everything is read, one block (four among J..S and Z, then dJ..dS and dZ) is assigned, everything is read again; non-trivial: stable before and after the change of at least one block")
def each_block(d, ctx):
	c, new = stabilized(d['c'], d['A'][0]), stabilized(d['new'], d['A'][1])
	size = c['size']
	u = np.matrix(sy.det_inputs(size[3], 5))
	stables = 0
	for k in d['targets']:
		R = SIF(sifs.mats(c))
		r0 = radius(R)
		for what in d['order'][:d['first']] if d['first'] else d['order']:
			read(R, what, u, r0)
		if k == 'Z':
			R.Z = SIF(sifs.mats(new)).Z
			ref = SIF(sifs.mats(new))
		else:
			x = dict(c)
			x[k] = new[k]
			if k in 'KJM':
				x = stabilized(x, d['A'][0])		# (P is also assigned, first)
				R.P = sifs.npm(x, 'P')
				for what in d['order'] if d['first'] is None else d['order'][:d['first']]:
					read(R, what, u, radius(R))
			setattr(R, k, sifs.npm(x, k))
			ref = SIF(sifs.mats(x))
		rad = same(R, ref, u, "after %s: " % k, d['order'])
		stables += r0 < 0.93 and rad < 0.93
		# and the same with the matrix of the exactly represented coefficients
		if k == 'Z':
			dZ = 1 - np.array(ref.dZ)
			R.dZ = np.matrix(dZ)
			b = blocks(dZ, size)
			ref = SIF(sifs.mats(new), tuple(np.matrix(b[z]) for z in sifs.NAMES))
		else:
			dZ = np.array(ref.dZ)
			b = blocks(dZ, size)
			b[k][...] = 1 - b[k]
			setattr(R, 'd' + k, np.matrix(b[k]))
			ref = SIF(sifs.mats(x), tuple(np.matrix(b[z]) for z in sifs.NAMES))
		assert np.array_equal(np.array(R.dZ), dZ), "dZ after d%s" % k
		same(R, ref, u, "after d%s: " % k, d['order'])
	ctx.nontrivial(stables >= 1)
	ctx.label('stable changes=%d' % stables, 'first=%s' % d['first'])

@check.part(histories(), quick=1200, thorough=12000, shards=(4, 8), rule="histories of 1 to 10 assignments (J..S, Z, dJ..dS, dZ) and readings of everything that is derived; non-trivial: a reading before an assignment")
def histories_(d, ctx):
	c = d['c']
	l, n, p, q = size = c['size']
	u = np.matrix(sy.det_inputs(q, 6))
	given = sifs.mats(c)
	if d['int']:        # matrices of integers when they only contain integers
		given = tuple(M.astype(int) if np.array_equal(M, np.round(M)) else M for M in given)
	R = SIF(given)
	cur = {k: np.matrix(M, dtype=float) for k, M in zip(sifs.NAMES, given)}
	dZ = np.array(SIF(tuple(cur[k] for k in sifs.NAMES)).dZ)
	readings, late, nset = 0, False, 0
	for op in d['ops']:
		if op[0] == 'read':
			read(R, op[1], u, radius(R))
			readings += 1
			continue
		late = late or readings > 0
		nset += 1
		if op[0] in ('set', 'setZ'):
			if op[0] == 'set':
				M = np.matrix(op[2])
				arg = M.copy() if op[3] == 'matrix' else np.array(op[2])
				setattr(R, op[1], arg)
				cur[op[1]] = M
			else:
				cur = {k: np.matrix(np.array(op[1][k], dtype=float).reshape(sifs.shapes(c)[k])) for k in sifs.NAMES}
				arg = np.matrix(np.bmat([[-cur['J'], cur['M'], cur['N']], [cur['K'], cur['P'], cur['Q']], [cur['L'], cur['R'], cur['S']]]))
				arg = arg if op[2] == 'matrix' else np.array(arg)
				R.Z = arg
			dZ = np.array(SIF(tuple(cur[k] for k in sifs.NAMES)).dZ)
		elif op[0] == 'setd':
			arg = np.matrix(op[2])
			setattr(R, 'd' + op[1], arg)
			b = blocks(dZ, size)[op[1]]
			b[...] = np.array(op[2])
		else:
			arg = np.matrix(op[1])
			R.dZ = arg
			dZ = np.array(op[1])
		arg[...] = 3		# what becomes of the matrix given has no effect
		# immediately visible
		for k in sifs.NAMES:
			assert np.array_equal(getattr(R, k), cur[k]), "after %s: %s is %s instead of %s" % (op[:2], k, getattr(R, k).tolist(), cur[k].tolist())
		assert np.array_equal(np.array(R.dZ), dZ), "after %s: dZ is %s instead of %s" % (op[:2], np.array(R.dZ).tolist(), dZ.tolist())
		assert np.array_equal(R.dS, blocks(dZ, size)['S']) and np.array_equal(R.dJ, blocks(dZ, size)['J']), "after %s: dS or dJ" % (op[:2],)
	ctx.nontrivial(late)
	ctx.label('sets=%d' % nset, 'reads=%d' % readings, *set(x[0] + (x[1] if x[0] in ('set', 'setd') else '') for x in d['ops']))
	bl = blocks(dZ, size)
	ref = SIF(tuple(cur[k] for k in sifs.NAMES), tuple(bl[k] for k in sifs.NAMES))
	assert np.array_equal(np.array(ref.dZ), dZ), "dZ of a new SIF is %s instead of the one given %s" % (np.array(ref.dZ).tolist(), dZ.tolist())
	assert np.array_equal(np.array(R.dZ), dZ), "dZ is %s instead of %s" % (np.array(R.dZ).tolist(), dZ.tolist())
	for k in sifs.NAMES:
		assert np.array_equal(getattr(R, 'd' + k), bl[k]), "d%s is %s instead of %s" % (k, getattr(R, 'd' + k).tolist(), bl[k].tolist())
		assert np.array_equal(getattr(ref, 'd' + k), bl[k]), "new SIF: d%s" % k
	assert np.array_equal(np.array(R.Z), np.array(ref.Z)), "Z"
	rad = same(R, ref, u)
	if rad < 0.93:
		ctx.label('stable')


@st.composite
def two(draw):
	d = draw(histories())
	return d

@check.part(histories(), quick=200, thorough=3000, rule="the matrices given to an assignment, and another SIF built from the same matrices, are not changed by the later assignments; non-trivial: at least 2 assignments")
def isolation(d, ctx):
	c = d['c']
	size = c['size']
	given = sifs.mats(c)
	R, other = SIF(given), SIF(given)
	kept = []
	n = 0
	for op in d['ops']:
		if op[0] == 'set':
			M = np.matrix(op[2])
			setattr(R, op[1], M)
			kept.append((M, M.copy(), op[1]))
		elif op[0] == 'setZ':
			g = {k: np.array(op[1][k], dtype=float).reshape(sifs.shapes(c)[k]) for k in sifs.NAMES}
			M = np.matrix(np.bmat([[-g['J'], g['M'], g['N']], [g['K'], g['P'], g['Q']], [g['L'], g['R'], g['S']]]))
			R.Z = M
			kept.append((M, M.copy(), 'Z'))
		elif op[0] == 'setdZ':
			M = np.matrix(op[1])
			R.dZ = M
			kept.append((M, M.copy(), 'dZ'))
		elif op[0] == 'setd':
			M = np.matrix(op[2])
			setattr(R, 'd' + op[1], M)
			kept.append((M, M.copy(), 'd' + op[1]))
		n += op[0] != 'read'
	for M, C, what in kept:
		assert np.array_equal(M, C), "the matrix given for %s is modified" % what
	for k, M in zip(sifs.NAMES, given):
		assert np.array_equal(M, sifs.npm(c, k)), "the matrix %s given to the constructor is modified" % k
		assert np.array_equal(getattr(other, k), M), "another SIF is modified"
	ctx.nontrivial(n >= 2)
