# coding: utf-8
"""C23: the algorithms (texts and LaTeX) are executed line by line and compared with the realization"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, re
from fractions import Fraction as F
from oracle import *
import systems as sy, sifs
from props import c20
from fixif.SIF import Realization
from fixif.LTI import Filter

check = Check('C23', assumptions=["surnames are distinct and consistent with the shifts asked (a surname is only a new name of the variable, except those chosen by the direct forms)",
	"texts without time: the variable x'p' stands for the next value of the state x, copied to x at the end of the step (the LaTeX algorithm says it explicitly)"])

VAR = re.compile(r'^([A-Za-z_]+?)(\d*)(p?)(\((k)([+-]\d+)?\))?$')
STATEMENT = '<-'

def coefficient(s):
	m = re.match(r'^([+-]?)0x([0-9a-f]+)(?:\.([0-9a-f]*))?p([+-]\d+)$', s)
	if m:
		frac = m.group(3) or ''
		return (-1 if m.group(1) == '-' else 1) * F(int(m.group(2) + frac, 16)) * F(2) ** (int(m.group(4)) - 4 * len(frac))
	return F(s)

def parse(text):
	"""list of (dest, [(coef, var)]) from the lines of an algorithm (some statements are on several lines)"""
	tok = text.split()
	starts = [i - 1 for i, t in enumerate(tok) if t == STATEMENT]
	assert starts and starts[0] == 0, "the algorithm does not begin by an assignment: %r" % text
	out = []
	for a, b in zip(starts, starts[1:] + [len(tok)]):
		dest, e = tok[a], tok[a + 2:b]
		assert e and len(e) % 2 == 1 and all(x == '+' for x in e[1::2]), "line not understood: %s" % tok[a:b]
		terms = []
		if e != ['0']:
			for x in e[::2]:
				if '*' in x:
					c, v = x.split('*')
					terms.append((coefficient(c), v))
				elif x[0] == '-':
					terms.append((F(-1), x[1:]))
				else:
					terms.append((F(1), x))
		out.append((dest, terms))
	return out

class Machine:
	"""executes the statements, step by step; a variable is known by its name and its instant (None: without time)"""
	def __init__(self, states, U, x0, pvars):
		self.mem, self.U, self.pvars = {}, U, pvars
		self.init = states		# {name without time: initial value}
		self.undefined = []

	def split(self, v):
		m = VAR.match(v)
		assert m, "variable %r not understood" % v
		name, p = m.group(1) + m.group(2), bool(m.group(3))
		if not m.group(4):
			return name, p, None
		return name, p, self.k + int(m.group(6) or 0)

	def read(self, v):
		name, p, t = self.split(v)
		if p and (name + 'p', t) in self.mem:
			return self.mem[(name + 'p', t)]
		if (name, t) in self.mem:
			return self.mem[(name, t)]
		if t is not None and t < 0:
			return F(0)
		raise AssertionError("%s is read at the step %d before being computed" % (v, self.k))

	def write(self, v, val):
		name, p, t = self.split(v)
		if p:
			assert t is not None or self.pvars, "variable %s is not expected" % v
			self.mem[(name + 'p', t)] = val
			if t is not None:
				self.mem[(name, t)] = val
		else:
			self.mem[(name, t)] = val
			if t is None:
				self.mem[(name, self.k)] = val

	def step(self, k, prog, inputs, time):
		self.k = k
		for n, val in inputs.items():
			self.mem[(n, k)] = val
			self.mem[(n, None)] = val
		for dest, terms in prog:
			self.write(dest, sum((c * self.read(v) for c, v in terms), F(0)))
		if not time:		# swap
			for (n, t), val in list(self.mem.items()):
				if t is None and n.endswith('p') and len(n) > 1:
					self.mem[(n[:-1], None)] = val

def names(base, nb):
	return [base] if nb == 1 else [base + str(i + 1) for i in range(nb)]

def unlatex(text):
	"""the instructions of the LaTeX algorithm"""
	text = text.replace('$\\leftarrow$', STATEMENT).replace('\\\\', ' ')
	text = re.sub(r'_\{(\d+)\}', r'\1', text)
	return text.replace('$', '')

fmts = st.sampled_from([None, None, '%.17g', '%r', '%.60f', '%+.20e', '%a'])

@st.composite
def realizations(draw):
	kind = draw(st.sampled_from(['sif', 'sif', 'sif', 'structure']))
	d = dict(kind=kind)
	if kind == 'sif':
		d['c'] = draw(sifs.sif(l=(0, 2), n=(0, 3), p=(1, 2), q=(1, 2), stable=False, entry=st.one_of(sifs.coef, floats(1e3), st.sampled_from([1 - 2. ** -53, 1 + 2. ** -52, -1 + 2. ** -53, -1 - 2. ** -52, 2. ** -300])))) if draw(st.integers(0, 5)) == 5 else draw(sifs.sif(l=(5, 11), n=(0, 12), p=(1, 2), q=(1, 2), stable=False) if draw(st.integers(0, 7)) == 7 else sifs.sif(n=(0, 4), stable=False))
		l, n, p, q = d['c']['size']
		tri = draw(st.sampled_from(['any', 'upper', 'upper', 'noR']))
		if tri != 'any':
			for i in range(n):
				for j in range(i):
					d['c']['P'][i][j] = 0.
		if tri == 'noR':
			d['c']['R'] = [[0.] * n for _ in range(p)]
		d['surT'] = draw(surnames('a', l))
		d['surX'] = draw(surnames('b', n))
	else:
		d['s'] = draw(st.sampled_from([['DFI', dict(nbSum=a, transposed=t)] for a in (1, 2) for t in (False, True)] * 3 + [['DFII', dict(transposed=t)] for t in (False, True)] * 3
			+ [['dSS', dict(form=f)] for f in (None, 'ctrl', 'obs')] + [['rhoDFII', dict(transposed=t, equiv_dSS=e, scaling=None)] for t in (True, False) for e in (False, True)]))
		d['f'] = draw(sy.transfer_function(n=(1, 6), stable=True, a0=True))
	d['T'] = 7
	d['defaults'] = draw(st.booleans())
	q = d['c']['size'][3] if kind == 'sif' else 1
	d['u'] = draw(mat(st.integers(-8, 8).map(float), q, d['T']))
	d['time'], d['sur'] = draw(st.booleans()), draw(st.booleans())
	d['fmt'], d['latex'], d['comments'] = draw(fmts), draw(st.booleans()), draw(st.booleans())
	return d

@st.composite
def surnames(draw, base, nb):
	k = draw(st.sampled_from(['none', 'none', 'str', 'tuple', 'shift', 'mixed']))
	if k == 'none' or nb == 0:
		return None
	letters = [base * (i + 1) for i in range(nb)] if draw(st.booleans()) else ['v' * i + base for i in range(nb, 0, -1)]
	if k == 'str':
		return letters
	if k == 'tuple':
		return [[base * 2, i + 3, 0] for i in range(nb)]
	sh = draw(st.lists(st.integers(-2, 2), min_size=nb, max_size=nb))
	if k == 'shift':
		return [[base * 2, i, s] for i, s in enumerate(sh)]
	return [[s_, None, s] for s_, s in zip(letters, sh)]

def build(d):
	if d['kind'] == 'sif':
		f = lambda s: None if s is None else [x if isinstance(x, str) else tuple(x) for x in s]
		return sifs.realization(d['c'], surnameVarT=f(d['surT']), surnameVarX=f(d['surX']), filt=Filter(A=np.eye(1), B=np.eye(1), C=np.eye(1), D=np.eye(1)))
	name, opt = d['s']
	return c20.STRUCT[name].makeRealization(Filter(num=d['f']['num'], den=d['f']['den'], stable=True), **opt)

@check.part(realizations(), quick=1200, thorough=20000, shards=(2, 8), rule="generated SIFs (also not SISO, with P upper triangular or not, with or without surnames) and structures; random options; the text is executed on 7 inputs in exact arithmetic; non-trivial: at least one non-null output and one state line")
def execution(d, ctx):
	R = build(d)
	l, n, p, q = R.size
	c = {k: np.asarray(getattr(R, k)).tolist() for k in sifs.NAMES}
	c['size'] = [l, n, p, q]
	if d['fmt'] == '%.60f' and any(0 < abs(x) < 1e-40 for x in np.asarray(R.Z).flatten().tolist()):
		d = dict(d, fmt='%.17g')		# (displayed with no significant digit)
	shifted = d['kind'] == 'sif' and any(isinstance(s, list) and s[2] != 0 for k in ('surT', 'surX') for s in (d[k] or [])) or d['kind'] == 'structure' and d['s'][0] in ('DFI', 'DFII') and not d['s'][1]['transposed']
	opt = dict(withTime=d['time'], withSurname=d['sur'], coefFormat=None if d['fmt'] in (None, '%a') else d['fmt'])
	if shifted and d['sur'] and not d['time']:
		ctx.label('rejected')
		for f in (R.algorithmTxt, R.algorithmLaTeX):
			try:
				f(**opt)
			except ValueError:
				continue
			raise AssertionError("surnames shifted in time are accepted without time")
		return
	upper = not np.tril(np.asarray(R.P), -1).any()
	if d['latex']:
		tex = R.algorithmLaTeX(caption='C', label='lab', **opt)
		i = tex.index('\\Begin{') + len('\\Begin{')
		body = tex[i:tex.index('\\end{algorithm}')].rstrip()
		assert body[-1] == '}', "end of the algorithm not found"
		body = body[:-1]
		assert '\\caption{C\\label{lab}}' in tex, "caption and label"
		comments = re.findall(r'\\tcp\{([^}]*)\}', body)
		lines = re.split(r'\\tcp\{[^}]*\}', body)
		assert not lines[0].strip(), "text before the first comment: %r" % lines[0]
		groups = dict(zip(comments, lines[1:]))
		assert len(groups) == len(comments), "comment given twice"
		swap = groups.pop('Swap states', None)
		if swap is not None:
			comments.remove('Swap states')
		assert (swap is not None) == (not d['time'] and not upper), "swap of the states: %r" % swap
		if swap is not None:
			assert swap.replace('$', '').split() == ['x', '\\leftarrow', 'xp'], "swap of the states: %r" % swap
		groups = {k: unlatex(v) for k, v in groups.items()}
		# declarations
		decl = tex[tex.index('\\SetAlgoLined'):i]
		for kw, var, nb in [('KwIn', 'u', q), ('KwOut', 'y', p), ('KwData', 'x', n), ('KwData', 't', l)] + ([('KwData', 'xp', n)] if swap is not None else []):
			m = re.findall(r'\\%s\{\$%s\$: (static )?(?:array \[1..(\d+)\] of reals|real)\}' % (kw, var), decl)
			assert len(m) == (1 if nb else 0), "declaration of %s: %r" % (var, decl)
			if nb:
				assert m[0][1] == (str(nb) if nb > 1 else ''), "declaration of %s: %r" % (var, decl)
				assert bool(m[0][0]) == (var == 'x'), "static declaration of %s: %r" % (var, decl)
	else:
		default = dict(coefFormat=None, withTime=True, withSurname=False, comments=True)
		# (the options that have their default value are not always given)
		txt = R.algorithmTxt(**{k: v for k, v in dict(opt, comments=d['comments']).items() if v != default[k] or not d.get('defaults')})
		if d['comments']:
			comments = re.findall(r'^/ (.*) /$', txt, re.M)
			lines = re.split(r'^/ .* /$', txt, flags=re.M)
			assert not lines[0].strip(), "text before the first comment: %r" % lines[0]
			groups = dict(zip(comments, lines[1:]))
			assert len(groups) == len(comments), "comment given twice"
		else:
			groups, comments = {'all': txt}, ['all']
	order = ['Temporary variables' if l > 1 else 'Temporary variable', 'States' if n > 1 else 'State', 'Outputs' if p > 1 else 'Output']
	prog = []
	if comments != ['all']:
		assert [x for x in order if x in comments] == comments, "comments are %s" % comments
	for k in comments:
		pr = parse(groups[k])
		prog.extend(pr)
		if not d['sur'] and k != 'all':
			for dest, _ in pr:
				assert dest[0] == {'T': 't', 'S': 'x', 'O': 'y'}[k[0]], "%s is computed under the comment %r" % (dest, k)
	if not d['sur'] and d['time']:
		assert len(prog) == l + n + p, "%d lines instead of %d" % (len(prog), l + n + p)
	known = not d['time'] and upper and any(x for r in c['R'] for x in r)		# see the probe
	# execution
	U = matF(d['u'])
	t, x, xn, y = sifs.run(c, d['u'])
	m = Machine({}, U, None, not upper)
	m.k = 0
	exactfmt = d['fmt'] in (None, '%a', '%.17g', '%r', '%.60f', '%+.20e')
	xnames = names('x', n)
	for nm in xnames:
		m.mem[(nm, 0)] = m.mem[(nm, None)] = F(0)
	if d['sur'] and d['kind'] == 'sif':
		# initial states known by their surnames
		sur = d['surX']
		for i in range(n):
			nm, sh = (xnames[i], 0) if sur is None else (sur[i], 0) if isinstance(sur[i], str) else (sur[i][0] + ('' if sur[i][1] is None else str(sur[i][1])), sur[i][2])
			m.mem[(nm, sh)] = F(0)
			m.mem[(nm, None)] = F(0)
	ynames, unames, tnames = names('y', p), names('u', q), names('t', l)
	isexact = d['fmt'] in (None, '%a') or d['kind'] == 'sif' and all(F(d['fmt'] % x) == F(x) for x in np.asarray(R.Z).flatten().tolist())
	for k in range(d['T']):
		m.step(k, prog, {unames[i]: U[i][k] for i in range(q)}, d['time'])
		if known:
			if not d['sur']:		# the states are computed as they should (the outputs are the known finding)
				for i in range(n):
					assert m.mem[(xnames[i], None)] == xn[i][k] or not isexact, "state %d at the step %d" % (i, k)
			continue
		for i in range(p):
			got = m.read(ynames[i] + '(k)') if (ynames[i], k) in m.mem else m.mem[(ynames[i], None)]
			ok = got == y[i][k] if isexact else abs(got - y[i][k]) <= F(1, 10 ** 9) * F(sifs.sim_mag(c, d['u'])[i][k])
			assert ok, "output %d at the step %d is %s instead of %s" % (i + 1, k, float(got), float(y[i][k]))
	ctx.label(d['kind'] if d['kind'] == 'sif' else d['s'][0], 'LaTeX' if d['latex'] else 'text', 'time' if d['time'] else 'no time', 'surnames' if d['sur'] else 'names', 'upper' if upper else 'full')
	if known:
		ctx.label('states only')
	ctx.nontrivial(n > 0 and any(v for r in y for v in r))

@check.probe('algorithm_without_time', "algorithm without time: the states are overwritten before the outputs that need them are computed (P upper triangular and R non-null)")
def overwritten():
	c = dict(J=[[1.]], K=[[1.]], L=[[1.]], M=[[0.5]], N=[[1.]], P=[[0.]], Q=[[0.]], R=[[1.]], S=[[0.]], size=[1, 1, 1, 1])
	prog = parse(sifs.realization(c, Filter(A=np.eye(1), B=np.eye(1), C=np.eye(1), D=np.eye(1))).algorithmTxt(withTime=False, comments=False))
	m = Machine({}, None, None, True)
	m.k = 0
	m.mem[('x', 0)] = m.mem[('x', None)] = F(0)
	u = [1, 2, -3]
	_, _, _, y = sifs.run(c, [[float(v) for v in u]])
	for k in range(3):
		m.step(k, prog, {'u': F(u[k])}, False)
		assert m.mem[('y', None)] == y[0][k], "output at the step %d is %s instead of %s" % (k, m.mem[('y', None)], y[0][k])

@st.composite
def bad_formats(draw):
	return dict(c=draw(sifs.sif(n=(1, 4), l=(0, 3), stable=False)), digits=draw(st.integers(1, 4)), latex=draw(st.booleans()))

@check.part(bad_formats(), quick=200, thorough=3000, rule="coefficients displayed with few digits: each line has the coefficients of its row of Z, rounded to the digits of the format, and only the non-null ones; non-trivial: at least 4 coefficients")
def formats(d, ctx):
	c = d['c']
	R = sifs.realization(c, Filter(A=np.eye(1), B=np.eye(1), C=np.eye(1), D=np.eye(1)))
	l, n, p, q = R.size
	fmt = '%%.%df' % d['digits']
	if d['latex']:
		tex = R.algorithmLaTeX(coefFormat=fmt, withTime=True)
		i = tex.index('\\Begin{') + len('\\Begin{')
		body = tex[i:tex.index('\\end{algorithm}')].rstrip()[:-1]
		prog = parse(unlatex(re.sub(r'\\tcp\{[^}]*\}', '', body)))
	else:
		prog = parse(R.algorithmTxt(coefFormat=fmt, withTime=True, comments=False))
	e = sifs.exact(c)
	src = [v + '(k+1)' for v in names('t', l)] + [v + '(k)' for v in names('x', n)] + [v + '(k)' for v in names('u', q)]
	full = np.tril(np.asarray(R.P), -1).any()
	dst = [v + '(k+1)' for v in names('t', l)] + [v + ('p' if full else '') + '(k+1)' for v in names('x', n)] + [v + '(k)' for v in names('y', p)]
	rows = ([[-x if j != i else 0 for j, x in enumerate(r)] + e['M'][i] + e['N'][i] for i, r in enumerate(e['J'])]
		+ [(e['K'][i] if l else []) + e['P'][i] + e['Q'][i] for i in range(n)] + [(e['L'][i] if l else []) + e['R'][i] + e['S'][i] for i in range(p)])
	assert len(prog) == len(rows), "%d lines instead of %d" % (len(prog), len(rows))
	for (dest, terms), r, dd in zip(prog, rows, dst):
		assert dest.replace('p', '') == dd.replace('p', ''), "%s instead of %s" % (dest, dd)
		exp = [(v, x) for v, x in zip(src, r) if x != 0]
		assert [v for _, v in terms] == [v for v, _ in exp], "terms of %s: %s" % (dd, terms)
		for (co, v), (_, x) in zip(terms, exp):
			assert abs(co - x) <= F(1, 2 * 10 ** d['digits']), "coefficient of %s in %s is %s instead of %s" % (v, dd, co, x)
	ctx.nontrivial(sum(1 for r in rows for x in r if x) >= 4)
	ctx.label('LaTeX' if d['latex'] else 'text')
