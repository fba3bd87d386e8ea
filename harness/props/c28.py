# coding: utf-8
"""C28: importSimulink: generated diagrams (with subsystems, in any order) versus the direct simulation of the diagram"""
from core import Check, Invalid, REPO
from gens import *
from hypothesis import strategies as st
import numpy as np, os, random, tempfile, zipfile
import xml.etree.ElementTree as ET
from fractions import Fraction as F
from oracle import *
import sifs
from fixif.Structures.Simulink import importSimulink

check = Check('C28', assumptions=["documented limits of the import: scalar signals, blocks Inport, Outport, Gain, Sum, Delay and SubSystem, no gain that directly feeds a gain", "initial conditions of the delays equal to 0",
	"all the ports are connected"])

coef = st.one_of(st.sampled_from([1., -1., 0.5, 2., -0.25]), st.integers(-20, 20).map(lambda k: k / 8.))
exotic = st.sampled_from([1234.5, -3000.25, 2. ** -40, -2. ** -60, 1 / 3., -0.1 - 0.2, 2 / 7.])

# A (flat) diagram: blocks = list of [type, parameters, sources], in an order such that the sums and gains only use the blocks before them
# (the delays use any block); the sources are indices of blocks

@st.composite
def diagram(draw, q=(1, 3), n=(0, 4), m=(1, 9), p=(1, 3), loop=False):
	wide = draw(st.integers(0, 5)) == 5
	big = not loop and draw(st.sampled_from([0, 0, 0, 0, 1, 2]))		# (2: only tiny gains)
	if wide:
		# (ports with two digits)
		q, m, p = [draw(st.sampled_from([x, x, (10, 13)])) for x in (q, m, p)]
		m = draw(st.sampled_from([m, (14, 24)]))
	q, n, m, p = [draw(st.integers(*x)) for x in (q, n, m, p)]
	if draw(st.integers(0, 3)):
		n, m = max(n, 1), max(m, 3)
	blocks = [['Inport', dict(port=i + 1), []] for i in range(q)]
	for i in range(n):
		blocks.append(['Delay', dict(length=draw(st.sampled_from([1, 1, 1, 2, 3])), write=draw(st.booleans())), [None]])
	for i in range(m):
		k = len(blocks)
		recent = st.integers(max(0, k - 2), k - 1)
		src = st.one_of(st.integers(0, k - 1), recent, recent)
		if wide and k > q + n + 3:		# blocks used by many others
			src = st.one_of(st.integers(q + n, q + n + 2), src)
		nogain = src.filter(lambda j: blocks[j][0] != 'Gain')
		if draw(st.integers(0, 2)) and i or any(b[0] == 'Gain' for b in blocks[q + n:]) and not any(b[0] != 'Gain' for b in blocks[q + n:]):
			ports = draw(st.integers(1, 4) if not wide else st.sampled_from([2, 3, 5, 10, 11, 12]))
			blocks.append(['Sum', dict(signs=''.join(draw(st.sampled_from('++-')) for _ in range(ports)), bar=draw(st.integers(-1, ports))), [draw(src) for _ in range(ports)]])
		else:
			g = draw(st.sampled_from([2. ** -40, -2. ** -60]) if big == 2 else exotic if big and draw(st.booleans()) else coef)
			blocks.append(['Gain', dict(gain=g, how=draw(st.sampled_from(['num', 'num', 'exp', 'const'] if g != 1 else ['none', 'num', 'const']))), [draw(nogain)]])
	any_ = st.one_of(st.integers(q + n, len(blocks) - 1), st.integers(0, len(blocks) - 1), st.integers(max(q + n, len(blocks) - 3), len(blocks) - 1))
	for b in blocks:
		if b[0] == 'Delay':
			b[2] = [draw(any_)]
	sums = [i for i, b in enumerate(blocks) if b[0] == 'Sum']
	for i in range(p):
		blocks.append(['Outport', dict(port=i + 1), [draw(st.one_of(st.sampled_from(sums[-2:] or [0]), any_, st.sampled_from(sums or [0])))]])
	if loop and sums:
		# a sum that uses a block after it (or itself)
		i = draw(st.sampled_from(sums))
		later = [j for j in range(i, q + n + m)]
		blocks[i][2][draw(st.integers(0, len(blocks[i][2]) - 1))] = draw(st.sampled_from(later))
	groups = draw(st.integers(0, 3))
	return dict(blocks=blocks, q=q, p=p, n=sum(b[1]['length'] for b in blocks if b[0] == 'Delay'), seed=draw(st.integers(0, 10 ** 6)), groups=groups,
		u=draw(mat(st.integers(-8, 8).map(lambda k: k / 8.), q, 6)))

def solve(d):
	"""outputs of the diagram (Fractions); the algebraic loops are solved. None if there is no unique solution"""
	B = d['blocks']
	mem = [[F(0)] * b[1]['length'] if b[0] == 'Delay' else None for b in B]
	N = len(B)
	W = [[F(0)] * N for _ in range(N)]
	for i, (t, par, src) in enumerate(B):
		if t == 'Gain':
			W[i][src[0]] += F(par['gain'])
		elif t == 'Sum':
			for s, j in zip(par['signs'], src):
				W[i][j] += 1 if s == '+' else -1
		elif t == 'Outport':
			W[i][src[0]] += 1
	M = [[F(int(i == j)) - W[i][j] for j in range(N)] for i in range(N)]
	# the order of the blocks is a topological order if there is no loop
	triangular = all(M[i][j] == 0 for i in range(N) for j in range(i + 1, N)) and all(M[i][i] == 1 for i in range(N))
	T = len(d['u'][0])
	out = [[] for _ in range(d['p'])]
	for k in range(T):
		rhs = [F(d['u'][par['port'] - 1][k]) if t == 'Inport' else mem[i][0] if t == 'Delay' else F(0) for i, (t, par, src) in enumerate(B)]
		if triangular:
			v = []
			for i in range(N):
				v.append(rhs[i] - sum((M[i][j] * v[j] for j in range(i) if M[i][j]), F(0)))
		else:
			v = gauss(M, rhs)
			if v is None:
				return None
		for i, (t, par, src) in enumerate(B):
			if t == 'Delay':
				mem[i] = mem[i][1:] + [v[src[0]]]
			elif t == 'Outport':
				out[par['port'] - 1].append(v[i])
	return out

def gauss(M, b):
	n = len(M)
	A = [list(r) + [x] for r, x in zip(M, b)]
	for c in range(n):
		pv = next((i for i in range(c, n) if A[i][c]), None)
		if pv is None:
			return None
		A[c], A[pv] = A[pv], A[c]
		A[c] = [x / A[c][c] for x in A[c]]
		for i in range(n):
			if i != c and A[i][c]:
				f = A[i][c]
				A[i] = [x - f * y for x, y in zip(A[i], A[c])]
	return [r[n] for r in A]

class Node(object):
	"""a block of a (hierarchical) system"""
	def __init__(self, type, par, src=()):
		self.type, self.par, self.src, self.kids = type, par, list(src), None      # src: list of (Node, output port)

def hierarchy(d, rnd):
	"""nodes of the top system, with some blocks put in subsystems"""
	nodes = [Node(t, par) for t, par, src in d['blocks']]
	for x, (t, par, src) in zip(nodes, d['blocks']):
		x.src = [(nodes[j], 1) for j in src]
	top = list(nodes)
	for _ in range(d['groups']):
		# choose a subset of the blocks of a system
		systems = [top] + [x.kids for x in walk(top) if x.kids is not None]
		system = rnd.choice(systems)
		cand = [x for x in system if x.type not in ('Inport', 'Outport')]
		if not cand:
			continue
		inside = rnd.sample(cand, rnd.randint(1, len(cand)))
		sub = Node('SubSystem', {})
		sub.kids = list(inside)
		# wires that enter: one port per source (or sometimes one port per wire)
		ports, entering = {}, []
		for x in inside:
			for i, (s, o) in enumerate(x.src):
				if s not in inside:
					key = (s, o) if rnd.random() < .7 else (s, o, x, i)
					if key not in ports:
						port = Node('Inport', {})
						ports[key] = port
						entering.append((port, (s, o)))
					x.src[i] = (ports[key], 1)
		rnd.shuffle(entering)
		for i, (port, s) in enumerate(entering):
			port.par = dict(port=i + 1)
			sub.kids.append(port)
			sub.src.append(s)
		# wires that leave
		outs, leaving = {}, []
		for x in system:
			if x in inside:
				continue
			for i, (s, o) in enumerate(x.src):
				if s in inside:
					key = (s, o) if rnd.random() < .7 else (s, o, x, i)
					if key not in outs:
						outs[key] = Node('Outport', {}, [(s, o)])
						leaving.append(outs[key])
					x.src[i] = (outs[key], 0)        # (port number known later)
		for i in range(len(sub.src)):
			s, o = sub.src[i]
			if s in inside:
				raise AssertionError
		rnd.shuffle(leaving)
		for i, port in enumerate(leaving):
			port.par = dict(port=i + 1)
			sub.kids.append(port)
		for x in system:
			if x not in inside:
				x.src = [(sub, s.par['port']) if o == 0 else (s, o) for s, o in x.src]
		sub.src = [(sub, s.par['port']) if o == 0 else (s, o) for s, o in sub.src]
		if not entering and not leaving:
			pass
		system[:] = [x for x in system if x not in inside] + [sub]
	return top

def walk(system):
	for x in system:
		yield x
		if x.kids is not None:
			yield from walk(x.kids)

def number(x, how):
	if how == 'exp':
		return '%se-1' % repr(x * 10) if x * 10 / 10 == x and 'e' not in repr(x * 10) else repr(x)
	return repr(int(x)) if x == int(x) else repr(x)

def write(d):
	"""text of blockdiagram.xml, constants"""
	rnd = random.Random(d['seed'])
	top = hierarchy(d, rnd)
	everything = list(walk(top))
	sids = rnd.sample(range(1, len(everything) + rnd.choice([1, 5, 50])), len(everything))
	for x, s in zip(everything, sids):
		x.sid = str(s)
		x.name = rnd.choice(['%s%d' % (x.type, s), x.type, 'a b\n%d' % s, 'x[n]'])
	constants = {}
	def system(nodes):
		el = ET.Element('System')
		ET.SubElement(el, 'P', Name='Location').text = '[0, 30, 1280, 994]'
		items = []
		for x in nodes:
			b = ET.Element('Block', BlockType=x.type, Name=x.name, SID=x.sid)
			def P(name, text):
				ET.SubElement(b, 'P', Name=name).text = text
			P('Position', '[1, 2, 3, 4]')
			par = x.par
			if x.type in ('Inport', 'Outport'):
				if par['port'] != 1 or rnd.random() < .3:
					P('Port', str(par['port']))
				P('IconDisplay', 'Port number')
			elif x.type == 'Delay':
				P('Ports', '[1, 1]')
				if par['write'] or par['length'] != 1:
					P('DelayLength', str(par['length']))
				P('InitialCondition', '0')
			elif x.type == 'Gain':
				if par['how'] == 'const':
					# (names that differ by their case, or one the beginning of the other)
					free = [x for x in ('K', 'k', 'Ka', 'KA', 'gama') if x not in constants]
					c = rnd.choice(free or ['K', 'g1', 'a.b', 'gama']) + ('' if free else str(len(constants)))
					constants[c] = par['gain']
					P('Gain', c)
				elif par['how'] != 'none':
					P('Gain', number(par['gain'], par['how']))
				P('ParamDataTypeStr', 'Inherit: Inherit via internal rule')
			elif x.type == 'Sum':
				P('Ports', '[%d, 1]' % len(par['signs']))
				s = par['signs']
				if par['bar'] >= 0:
					s = s[:par['bar']] + '|' + s[par['bar']:]
				P('Inputs', s)
			elif x.type == 'SubSystem':
				P('Ports', '[%d, %d]' % (sum(k.type == 'Inport' for k in x.kids), sum(k.type == 'Outport' for k in x.kids)))
				b.append(system(x.kids))
			items.append(b)
		rnd.shuffle(items)
		# lines: the destinations of each source, in branches
		dst = {}
		for x in nodes:
			for i, (s, o) in enumerate(x.src):
				dst.setdefault((s.sid, o), []).append('%s#in:%d' % (x.sid, i + 1))
		lines = []
		for (sid, o), ds in dst.items():
			rnd.shuffle(ds)
			l = ET.Element('Line')
			ET.SubElement(l, 'P', Name='ZOrder').text = '12'
			ET.SubElement(l, 'P', Name='Src').text = '%s#out:%d' % (sid, o)
			def branch(el, ds):
				if len(ds) == 1:
					ET.SubElement(el, 'P', Name='Points').text = '[1, 0]'
					ET.SubElement(el, 'P', Name='Dst').text = ds[0]
				else:
					k = rnd.randint(1, len(ds) - 1)
					for part in (ds[:k], ds[k:]):
						branch(ET.SubElement(el, 'Branch'), part)
			branch(l, ds)
			lines.append(l)
		rnd.shuffle(lines)
		for x in items + lines:
			el.append(x)
		return el
	root = ET.Element('ModelInformation', Version='1.0')
	model = ET.SubElement(root, 'Model', Name='m')
	ET.SubElement(model, 'P', Name='Version').text = '8.3'
	model.append(system(top))
	return ET.tostring(root, encoding='utf-8', xml_declaration=True), constants

def load(xml, constants, folder='simulink/'):
	fd, name = tempfile.mkstemp(suffix='.slx', dir='.')
	os.close(fd)
	try:
		with zipfile.ZipFile(name, 'w') as z:
			z.writestr('[Content_Types].xml', '<a/>')
			z.writestr(folder + 'blockdiagram.xml', xml)
		return importSimulink(name, constants) if constants is not None else importSimulink(name)
	finally:
		os.remove(name)

def behaviour(R, d, q, p, n, ref, mag=None):
	c = {k: np.asarray(getattr(R, k)).tolist() for k in sifs.NAMES}
	l = R.l
	assert R.q == q and R.p == p, "%d inputs and %d outputs instead of %d and %d" % (R.q, R.p, q, p)
	assert n is None or R.n == n, "%d states instead of %d" % (R.n, n)
	J = np.asarray(R.J)
	assert np.array_equal(np.triu(J), np.eye(l)), "J is not lower triangular with a unit diagonal"
	c['size'] = [l, R.n, p, q]
	y = sifs.run(c, d['u'])[3]
	for i in range(p):
		for k in range(len(ref[i])):
			assert y[i][k] == ref[i][k] or mag and abs(y[i][k] - ref[i][k]) <= mag[i][k] * F(1, 10 ** 13), "output %d at time %d: %r instead of %r" % (i + 1, k, float(y[i][k]), float(ref[i][k]))

def sources(d):
	"""blocks that influence the outputs"""
	B = d['blocks']
	seen, todo = set(), [i for i, b in enumerate(B) if b[0] == 'Outport']
	while todo:
		i = todo.pop()
		if i not in seen:
			seen.add(i)
			todo += B[i][2]
	return seen

@check.part(diagram(), quick=500, thorough=12000, rule="at least a sum, a gain and a delay that have an influence on the outputs")
def imported(d, ctx):
	ref = solve(d)
	xml, constants = write(d)
	R = load(xml, constants if constants or d['seed'] % 2 else None, ['simulink/', '', 'a/b/'][d['seed'] % 3])
	mag = None
	if any(b[0] == 'Gain' and abs(F(b[1]['gain'])) in (F(2469, 2), F(12001, 4), F(1, 2 ** 40), F(1, 2 ** 60), F(1 / 3.), F(.1 + .2), F(2 / 7.)) for b in d['blocks']):
		# the merged coefficients can be rounded: relatively to the sum of the absolute values of the contributions
		mag = solve(dict(d, u=[[abs(x) for x in r] for r in d['u']], blocks=[[t, dict(par, gain=abs(par.get('gain', 0)), signs='+' * len(src)), src] for t, par, src in d['blocks']]))
		ctx.label('big or tiny gains')
	behaviour(R, d, d['q'], d['p'], d['n'], ref, mag)
	s = sources(d)
	types = {d['blocks'][i][0] for i in s}
	ctx.nontrivial({'Sum', 'Gain', 'Delay'} <= types)
	B = d['blocks']
	ctx.label('q=%d' % min(d['q'], 10), 'p=%d' % min(d['p'], 10), 'wide' if max([d['q'], d['p']] + [len(b[2]) for b in B]) > 9 else '', 'subsystem' if xml.count(b'SubSystem') else 'flat', xml.count(b'SubSystem') > 1 and 'several subsystems', any(B[i][0] == 'Delay' and B[i][1]['length'] > 1 for i in s) and 'long delay',
		any(B[i][0] == 'Sum' and len(set(B[i][2])) < len(B[i][2]) for i in s) and 'block used twice in a sum', any(b[0] == 'Outport' and B[b[2][0]][0] != 'Sum' for b in B) and 'output not on a sum',
		any(B[i][0] == 'Sum' and any(B[j][0] == 'Sum' for j in B[i][2]) for i in s) and 'chained sums')

@st.composite
def parallel(draw):
	"""each input, multiplied by a gain written with all its digits, in a sum that goes to an output (after a delay or not)"""
	q = draw(st.integers(1, 5))
	full = st.one_of(st.floats(-4, 4, allow_nan=False).filter(lambda x: 1e-4 < abs(x)), st.sampled_from([1 / 3., .1, .1 + .2, 2 ** .5, 1 - 2. ** -53, 1 + 2. ** -52, 1e-7 / 3, 123456789.123456789]))
	gains = draw(st.lists(full, min_size=q, max_size=q))
	delayed = draw(st.lists(st.booleans(), min_size=q, max_size=q))
	blocks = [['Inport', dict(port=i + 1), []] for i in range(q)]
	last = []
	for i in range(q):
		if delayed[i]:
			blocks.append(['Delay', dict(length=1, write=False), [i]])
		last.append(len(blocks) - 1 if delayed[i] else i)
	for i in range(q):
		blocks.append(['Gain', dict(gain=gains[i], how=draw(st.sampled_from(['num', 'const', 'const']))), [last[i]]])
		last[i] = len(blocks) - 1
	for i in range(q):
		blocks.append(['Sum', dict(signs=draw(st.sampled_from('+-')), bar=-1), [last[i]]])
		last[i] = len(blocks) - 1
	for i in range(q):
		blocks.append(['Outport', dict(port=i + 1), [last[i]]])
	return dict(blocks=blocks, q=q, p=q, n=sum(delayed), seed=draw(st.integers(0, 10 ** 6)), groups=draw(st.integers(0, 1)), u=[[1., 0., -0.5]] * q)

@check.part(parallel(), quick=200, thorough=4000, rule="gains with all their digits, written as numbers or as names of constants that only differ by their case, each on its own path; non-trivial: at least two gains")
def exact_gains(d, ctx):
	"""the gains are imported without any error"""
	ref = solve(d)
	xml, constants = write(d)
	R = load(xml, constants or None)
	behaviour(R, d, d['q'], d['p'], d['n'], ref)
	ctx.nontrivial(d['q'] > 1)
	ctx.label('constants' if len(constants) > 1 else '')

@check.part(diagram(loop=True), quick=200, thorough=5000, rule="algebraic loop that has an influence on the outputs")
def loops(d, ctx):
	"""diagrams with an algebraic loop are rejected (or have the good outputs, when its coefficients cancel)"""
	B = d['blocks']
	for i, (t, par, src) in enumerate(B):
		if t == 'Gain' and B[src[0]][0] == 'Gain':
			raise Invalid()
	ref = solve(d)
	xml, constants = write(d)
	try:
		R = load(xml, constants)
	except (SystemExit, Exception):
		R = None
	def reach(i, seen):
		if i in seen:
			return seen
		seen.add(i)
		if B[i][0] in ('Sum', 'Gain'):
			for j in B[i][2]:
				reach(j, seen)
		return seen
	s = sources(d)
	loop = [i for i in s if B[i][0] == 'Sum' and any(i in reach(j, set()) for j in B[i][2])]
	allloop = [i for i in range(len(B)) if B[i][0] == 'Sum' and any(i in reach(j, set()) for j in B[i][2])]
	if not allloop:
		assert R is not None, "rejected, without algebraic loop"
	if R is not None:
		assert ref is not None or not loop, "a diagram without unique solution is accepted"
		if ref is not None:
			behaviour(R, d, d['q'], d['p'], d['n'], ref)
	ctx.nontrivial(bool(loop))
	ctx.label('rejected' if R is None else 'accepted', 'loop' if loop else 'useless loop' if allloop else 'no loop')

@check.part(st.fixed_dictionaries(dict(file=st.sampled_from(['lwdfa_1t_ssign.slx', 'lwdf_butter5.slx', 'lwdfa_1t.slx', 'direct_form2_withsub.slx', 'direct_form2.slx']),
	u=mat(st.integers(-8, 8).map(lambda k: k / 8.), 1, 6), k=st.lists(st.integers(-16, 16).map(lambda k: k / 16.), min_size=8, max_size=8))), quick=40, thorough=400, rule="non null inputs")
def shipped(a, ctx):
	"""the diagrams given in the repository"""
	name = os.path.join(REPO, 'fixif', 'Structures', 'test', a['file'])
	with zipfile.ZipFile(name) as z:
		root = ET.fromstring(z.read('simulink/blockdiagram.xml'))
	consts = {}
	B, port_of = [], {}
	blocks = list(root.find('Model').find('System').iter('Block'))
	index = {b.get('SID'): i for i, b in enumerate(blocks)}
	wires, owner = {}, {}
	for b in blocks:
		sub = b.find('System')
		if sub is not None:
			for x in sub.findall('Block'):
				owner[x.get('SID')] = b.get('SID')
	for l in root.find('Model').find('System').iter('Line'):
		src = [p.text for p in l.findall('P') if p.get('Name') == 'Src'][0]
		for p in l.iter('P'):
			if p.get('Name') == 'Dst':
				wires[p.text] = src
	par = lambda b, n, dflt=None: next((p.text for p in b.findall('P') if p.get('Name') == n), dflt)
	def source(sid, port):
		"""index of the block (not a subsystem nor a port of a subsystem) that feeds this port"""
		s = wires['%s#in:%d' % (sid, port)].partition('#out:')
		b = blocks[index[s[0]]]
		if b.get('BlockType') == 'SubSystem':
			o = [x for x in b.find('System').findall('Block') if x.get('BlockType') == 'Outport' and par(x, 'Port', '1') == s[2]][0]
			return source(o.get('SID'), 1)
		if b.get('BlockType') == 'Inport' and s[0] in owner:
			return source(owner[s[0]], int(par(b, 'Port', '1')))
		return index[s[0]]
	for b in blocks:
		sid, t = b.get('SID'), b.get('BlockType')
		if t == 'SubSystem' or t in ('Inport', 'Outport') and sid in owner:
			B.append(['Unused', {}, []])
		elif t == 'Inport':
			B.append([t, dict(port=int(par(b, 'Port', '1'))), []])
		elif t == 'Outport':
			B.append([t, dict(port=int(par(b, 'Port', '1'))), [source(sid, 1)]])
		elif t == 'Delay':
			B.append([t, dict(length=int(par(b, 'DelayLength', '1'))), [source(sid, 1)]])
		elif t == 'Gain':
			g = par(b, 'Gain', '1')
			try:
				g = float(g)
			except ValueError:
				g = consts.setdefault(g, a['k'][len(consts) % 8])
			B.append([t, dict(gain=g), [source(sid, 1)]])
		else:
			signs = par(b, 'Inputs').replace('|', '')
			B.append([t, dict(signs=signs), [source(sid, i + 1) for i in range(len(signs))]])
	q, p = sum(b[0] == 'Inport' for b in B), sum(b[0] == 'Outport' for b in B)
	d = dict(blocks=B, u=a['u'], p=p)
	ref = solve(d)
	R = importSimulink(name, consts)
	# (coefficients with long mantissas are possible)
	c = {k: np.asarray(getattr(R, k)).tolist() for k in sifs.NAMES}
	c['size'] = list(R.size)
	assert R.q == q and R.p == p
	y = sifs.run(c, a['u'])[3]
	M = max([abs(x) for r in ref for x in r] + [F(1)])
	for i in range(p):
		for k in range(6):
			assert abs(y[i][k] - ref[i][k]) <= M * F(1, 10 ** 10), "%s: output %d at time %d is %r instead of %r" % (a['file'], i + 1, k, float(y[i][k]), float(ref[i][k]))
	ctx.nontrivial(any(x for r in a['u'] for x in r))
	ctx.label(a['file'])

@check.part(st.sampled_from(['missing', 'text', 'two', 'none', 'unsupported']), quick=10, thorough=20, rule="all")
def rejected(how, ctx):
	"""invalid files"""
	xml = b'<ModelInformation><Model><System><Block BlockType="Scope" Name="s" SID="1"/></System></Model></ModelInformation>'
	fd, name = tempfile.mkstemp(suffix='.slx', dir='.')
	os.close(fd)
	try:
		if how == 'missing':
			os.remove(name)
		elif how == 'text':
			with open(name, 'w') as f:
				f.write('hello')
		else:
			with zipfile.ZipFile(name, 'w') as z:
				for n in dict(two=['a/blockdiagram.xml', 'b/blockdiagram.xml'], none=['x.xml'], unsupported=['simulink/blockdiagram.xml'])[how]:
					z.writestr(n, xml)
		try:
			importSimulink(name)
		except (ValueError, SystemExit):
			pass
		else:
			raise AssertionError("%s: accepted" % how)
	finally:
		if os.path.exists(name):
			os.remove(name)
	ctx.nontrivial()
	ctx.label(how)
