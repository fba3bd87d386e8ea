# coding: utf-8
"""C33: what is computed does not depend on what was done before with other objects, and the global state is left as it was"""
from core import Check, Invalid, REPO
from gens import *
from hypothesis import strategies as st
import numpy as np, os, re, sys, random, warnings, zipfile
import mpmath
import oracle, sifs
import systems as sy
from props import c20, c14, c28
from props.c24 import isolated
from fixif.LTI import Filter, dSS, dTF, dSSmp, Butter, Elliptic, Gabarit
from fixif.LTI.Butter import random_Butter
from fixif.LTI.Elliptic import random_Elliptic
from fixif.LTI.dSS import random_dSS
from fixif.LTI.dTF import random_dTF
from fixif.func_aux import MPFMatrix
from fixif.SIF import SIF, Realization
from fixif.SoP.VarName import generateNames
from fixif.Structures.Simulink import importSimulink

check = Check('C33', assumptions=["the numerical results are compared with a relative tolerance of 1e-7 (they are bit for bit the same in practice)",
	"the random generators (and the designs that draw random points, LGS and LCW) may change the state of the random number generators"])

DIRECT = ('DFI', 'DFII')

KINDS = ['tf', 'ss', 'gram', 'tfops', 'ssops', 'sim', 'mp', 'real', 'real', 'real', 'algo', 'algo', 'sens', 'quant', 'fxp', 'sif', 'sif', 'sifset', 'sifset', 'text', 'mpf', 'design', 'random', 'gab', 'gabs', 'names', 'fail', 'fail', 'cdouble', 'simulink', 'diagram', 'all', 'str', 'wl', 'rho', 'verdict']

@st.composite
def fir(draw):
	n = draw(st.integers(1, 4))
	return dict(num=draw(st.lists(sifs.coef, min_size=n + 1, max_size=n + 1)), den=[1.] + [0.] * n, type='numden')

gab = st.one_of(c14.specs(types=('lowpass', 'highpass', 'bandpass', 'bandstop')), st.sampled_from([[.5, -.5], [1, -1]]).flatmap(lambda g: st.sampled_from([
	dict(Fs=None, F=[[0, .25], [.5, None]], A=[g, -20], perm=[0, 1]), dict(Fs=48000, F=[[0, 6000], [9600, None]], A=[-20, g], perm=[1, 0])])))

@st.composite
def histories(draw):
	F = [dict(draw(fir() if draw(st.integers(0, 5)) == 0 else c20.siso_filter(n=(1, 4)))) for _ in range(2)]
	S = [draw(sifs.sif(l=(0, 2), n=(1, 3), p=(1, 2), q=(1, 2))) for _ in range(2)]
	# (a few kinds of operations per history, or all of them)
	kinds = draw(st.one_of(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3), st.just(KINDS)))
	ops = []
	for _ in range(draw(st.integers(2, 8))):
		k = draw(st.sampled_from(kinds))
		i = draw(st.integers(0, 1))
		if k in ('real', 'algo', 'sens', 'quant', 'fxp'):
			name, opt = draw(st.sampled_from(c20.OPTIONS * 2 + c20.RHO + c20.LG))
			if draw(st.integers(0, 2)) == 0:
				# (default values of some of the options)
				opt = {o: v for o, v in opt.items() if draw(st.booleans())}
			ops.append([k, i, [name, opt], draw(st.integers(0, 7))])
		elif k in ('tfops', 'ssops'):
			ops.append([k, i, draw(st.integers(0, 1))])
		elif k == 'sifset':
			nm = draw(st.sampled_from([x for x in 'KLMNPQRS' if 0 not in sifs.shapes(S[i])[x]]))
			ops.append([k, i, nm, draw(mat(sifs.coef, *sifs.shapes(S[i])[nm]))])
		elif k == 'mpf':
			n = draw(st.integers(1, 3))
			ops.append([k, draw(mat(dyads(60, 40), n, n)), draw(mat(dyads(60, 40), n, n))])
		elif k == 'design':
			ops.append([k, draw(st.sampled_from(['Butter', 'Elliptic'])), draw(st.integers(1, 4)), draw(st.sampled_from(['lowpass', 'highpass', 'bandpass', 'bandstop'])), draw(st.sampled_from([1., 2.])), draw(st.sampled_from([40., 60.])), draw(st.sampled_from([.375, .3125]))])
		elif k == 'random':
			ops.append([k, draw(st.sampled_from(['Butter', 'Elliptic', 'dSS', 'dTF', 'Gabarit'])), draw(st.integers(0, 10 ** 6))])
		elif k == 'gab':
			ops.append([k, draw(c14.specs(types=('lowpass', 'highpass', 'bandpass', 'bandstop'))), draw(st.sampled_from(['butter', 'cheby1', 'ellip']))])
		elif k == 'gabs':
			ops.append([k, i, draw(st.sampled_from(['butter', 'cheby1', 'ellip'])), draw(st.sampled_from([0, .125, .5]))])
		elif k == 'names':
			ops.append([k, draw(st.integers(1, 4)), draw(st.booleans())])
		elif k == 'fail':
			ops.append([k, draw(st.sampled_from(sorted(FAIL)))])
		elif k == 'rho':
			ops.append([k, i] + [draw(st.one_of(st.none(), st.lists(st.sampled_from(v), min_size=5, max_size=5))) for v in ([0., .5, -.5, 1.], [1., .5, .25, 2.])])
		elif k == 'str':
			ops.append([k, i, draw(st.integers(0, 2)) == 1])
		elif k == 'wl':
			ops.append([k, i, draw(st.sampled_from([1., 0., 1.5, 10.])), draw(st.integers(0, 2)), draw(st.sampled_from([.125, 1e-3, 1.]))])
		elif k == 'verdict':
			ops.append([k, draw(c14.specs(types=('lowpass', 'highpass', 'bandpass', 'bandstop'))), i, draw(st.sampled_from([0, .125]))])
		elif k == 'diagram':
			ops.append([k, i, draw(st.sampled_from([1., 1., .5, None]))])
		elif k == 'simulink':
			ops.append([k, draw(st.integers(0, 9)), draw(st.sampled_from([1., 1., .5, None]))])
		else:
			ops.append([k, i])
	D = [draw(c28.diagram()) for _ in range(2)] if any(o[0] == 'diagram' for o in ops) else []
	return dict(F=F, S=S, D=D, G=[draw(gab) for _ in range(2)] if any(o[0] == 'gabs' for o in ops) else [], ops=ops, prec=draw(st.sampled_from([53, 53, 30, 100])))

def flat(M):
	return np.asarray(M, dtype=float).tolist()

def mpl(M):
	return [[float(M[i, j]) for j in range(M.cols)] for i in range(M.rows)]

class Env(object):
	"""the objects used by a history (built when they are needed)"""
	def __init__(self, c):
		self.c, self._F, self._S, self._R, self._G = c, {}, {}, {}, {}
	def F(self, i):
		if i not in self._F:
			self._F[i] = c20.make_filter(self.c['F'][i])
		return self._F[i]
	def S(self, i):
		if i not in self._S:
			self._S[i] = sifs.realization(self.c['S'][i], Filter(A=np.zeros((1, 1)), B=np.eye(1), C=np.eye(1), D=np.eye(1)))
		return self._S[i]
	def G(self, i):
		if i not in self._G:
			self._G[i] = c14.build(self.c['G'][i])
		return self._G[i]
	def R(self, i, s):
		k = (i, repr(s))
		if k not in self._R:
			f = self.F(i)
			if s[0] in ('LGS', 'LCW') and f.order < 2:
				raise Invalid()
			self._R[k] = c20.STRUCT[s[0]].makeRealization(f, **s[1])
		return self._R[k]

def undated(s):
	return re.sub(r'\d{4}-\d\d-\d\d[ T]?(\d\d:\d\d:\d\d(\.\d+)?)?', '', s)

def results(env, op):
	k = op[0]
	if k == 'tf':
		H = env.F(op[1]).dTF
		return [flat(H.num), flat(H.den), H.order, H.WCPG() if op[1] else 0]
	if k == 'ss':
		S = env.F(op[1]).dSS
		return [flat(M) for M in (S.A, S.B, S.C, S.D)]
	if k == 'gram':
		S = env.F(op[1]).dSS
		return [flat(S.Wo), flat(S.Wc), float(S.H2norm()), flat(S.WCPG()), flat(S.calc_DC_gain())]
	if k == 'tfops':
		a, b = env.F(op[1]).dTF, env.F(op[2]).dTF
		return [[flat(H.num), flat(H.den)] for H in (a + b, a - b, a * b, -a, a * 2, 3. - b)]
	if k == 'ssops':
		a, b = env.F(op[1]).dSS, env.F(op[2]).dSS
		return [[flat(M) for M in (S.A, S.B, S.C, S.D)] for S in (a + b, a - b, a * b)]
	if k == 'sim':
		R, S = env.S(op[1]), env.F(op[1]).dSS.to_dSSmp()
		u = mpmath.matrix(np.asarray(sy.det_inputs(S.q, 6), dtype=float).tolist())
		return [flat(R.simulate(np.matrix(sy.det_inputs(R.q, 6)))), mpl(S.simulate(u)), [repr(x) for x in S.simulate_rounded(u, 20)]]
	if k == 'mp':
		S = env.F(op[1]).dSS.to_dSSmp()
		T = S.to_dTFmp(200)
		return [mpl(S.A), mpl(S.B), mpl(S.C), mpl(S.D), mpl(T.num), mpl(T.den)]
	if k in ('real', 'algo', 'sens', 'quant', 'fxp'):
		R = env.R(op[1], op[2])
		if op[2][0] in ('LGS', 'LCW'):
			return [R.structureName, R.size]
		if k == 'real':
			return [R.structureName, R.name, R.size, flat(R.Z), flat(R.dZ)]
		if k == 'algo':
			if op[2][0] not in DIRECT:
				return [R.algorithmTxt(coefFormat='%.1f').count('\n')]
			sur, time = bool(op[3] & 1), bool(op[3] & 2)
			if sur and not time:
				time = True
			return [R.algorithmTxt(withSurname=sur, withTime=time), undated(R.algorithmLaTeX(withSurname=sur, withTime=time))]
		if k == 'sens':
			M, MX = R.dTFsensitivity()
			return [float(M), flat(MX)]
		if k == 'quant':
			Q = R.quantize(6 + op[3])
			return [flat(Q.Z), flat(R.Z)]
		return [R.computeNaiveMSB(np.matrix([[1.5]]))]
	if k == 'sif':
		R = env.S(op[1])
		return [flat(M) for M in (R.Z, R.dZ, R.AZ, R.BZ, R.CZ, R.DZ, R.Hu.C, R.Hzeta.D, R.Hepsilon.B, R.Wo, R.Wc)] + [list(R.nbOp()), mpl(R.to_dSSexact().A)]
	if k == 'sifset':
		R = env.S(op[1])
		setattr(R, op[2], np.matrix(op[3]))
		return [flat(R.Z), flat(R.dSS.A), flat(R.dSS.D)]
	if k == 'text':
		R = env.S(op[1])
		return [str(R), R.getTiKZSparseMatrix(), R.getZtpmatrixLaTeX(), R.algorithmTxt(), undated(R.algorithmLaTeX(withTime=True)), R.name]
	if k == 'mpf':
		A, B = [MPFMatrix(mpmath.matrix([[oracle.dyad(*x) for x in r] for r in M])) for M in op[1:]]
		return [[[repr(P[i, j]._mpf_) for j in range(P.cols)] for i in range(P.rows)] for P in (A + B, A * B, A.add_exact(B), A.mul_exact(B), A.sub_exact(B))]
	if k == 'design':
		W = [0.25, op[6] + .125] if op[3].startswith('band') else op[6]
		f = Butter(op[2], W, op[3]) if op[1] == 'Butter' else Elliptic(op[2], op[4], op[5], W, op[3])
		return [flat(f.dTF.num), flat(f.dTF.den), f.name, f.n]
	if k == 'random':
		s = op[2]
		if op[1] == 'dSS':
			np.random.seed(s)
			S = random_dSS(3, 2, 1)
			return [flat(M) for M in (S.A, S.B, S.C, S.D)]
		if op[1] == 'dTF':
			np.random.seed(s)
			H = random_dTF((2, 5))
			return [flat(H.num), flat(H.den)]
		if op[1] == 'Gabarit':
			from fixif.LTI.Gabarit import random_Gabarit
			return [str(random_Gabarit(seed=s))]
		f = (random_Butter if op[1] == 'Butter' else random_Elliptic)(n=(2, 4), seed=s)
		return [flat(f.dTF.num), flat(f.dTF.den), f.name]
	if k == 'gab':
		g = c14.build(op[1])
		s = [g.type, str(g)]
		try:
			H = g.to_dTF(ftype=op[2])
		except ValueError:
			return s
		return s + ([flat(H.num), flat(H.den)] if H.order <= 8 else [H.order])
	if k == 'gabs':
		g = env.G(op[1])
		try:
			H = g.to_dTF(ftype=op[2], designMargin=op[3])
		except ValueError as e:
			return ['refused', str(g), repr(c14.state(g))]
		return [str(g), repr(c14.state(g)), H.order] + ([flat(H.num), flat(H.den)] if H.order <= 8 else [])
	if k == 'names':
		return [[v.toStr(LaTeX=op[2], withTime=t) for v in generateNames('x', op[1]) for t in (True, False)]]
	if k == 'fail':
		try:
			FAIL[op[1]](env)
		except (ValueError, ImportError, TypeError, AttributeError, LookupError, ArithmeticError) as e:
			return [type(e).__name__]
		return ['no error']
	if k == 'cdouble':
		R = env.S(op[1])
		return [flat(R.runCdouble(np.array(sy.det_inputs(R.q, 5), dtype=float)))]
	if k == 'all':
		f = env.F(op[1])
		return [sorted(R.name for R in f.iterAllRealizations())]
	if k == 'simulink':
		name = os.path.join(REPO, 'fixif', 'Structures', 'test', SLX[op[1] % len(SLX)])
		with zipfile.ZipFile(name) as z:
			gains = re.findall(r'<P Name="Gain">([^<]*)</P>', z.read('simulink/blockdiagram.xml').decode())
		c = {g: op[2] * (i % 7 - 3) / 8. for i, g in enumerate(gains) if not re.match(r'^[-+.0-9e]+$', g)} if op[2] else None
		R = importSimulink(name, *[c] * (c is not None))
		return [flat(R.Z), R.size]
	if k == 'str':
		f, R = env.F(op[1]), env.S(op[1])
		S = f.dSS.to_dSSmp()
		if op[2]:
			return [str(dSS(np.eye(35) / 2., np.ones((35, 1)), np.ones((1, 35)), np.eye(1)))]
		return [str(f), repr(f.dSS), str(f.dSS), str(f.dTF), str(R), str(MPFMatrix(S.A))]
	if k == 'wl':
		R = env.S(op[1])
		u = np.matrix([[op[2]]] * R.q)
		return [R.computeNaiveMSB(u) if op[3] == 0 else R._w_tilde(u) if op[3] == 1 else R.optimalUniformWL(u, np.matrix([[op[4]]] * R.p))]
	if k == 'rho':
		f = env.F(op[1])
		R = c20.STRUCT['rhoDFII'](f, **{o: np.matrix(v[:f.order]) for o, v in zip(('gamma', 'Delta'), op[2:]) if v})
		return [flat(R.Z), R.name]
	if k == 'verdict':
		return [bool(c14.build(op[1]).check_dTF(env.F(op[2]).dTF, margin=op[3])[0])]
	if k == 'diagram':
		xml, constants = c28.write(env.c['D'][op[1]])
		R = c28.load(xml, {n: v * op[2] for n, v in constants.items()} if op[2] else None)
		return [flat(R.Z), R.size]
	raise KeyError(k)

SLX = ['lwdfa_1t_ssign.slx', 'lwdf_butter5.slx', 'lwdfa_1t.slx', 'direct_form2_withsub.slx', 'direct_form2.slx']

FAIL = {
	'dTF': lambda e: dTF([1.], []),
	'dSS': lambda e: dSS(np.eye(2), np.eye(2), np.eye(3), np.eye(2)),
	'dSS sum': lambda e: e.F(0).dSS + dSS(np.eye(1), np.ones((1, 2)), np.eye(1), np.ones((1, 2))),
	'dSS product': lambda e: e.F(1).dSS * dSS(np.eye(1), np.eye(1), np.ones((2, 1)), np.ones((2, 1))),
	'SIF': lambda e: SIF((np.eye(1),) * 8 + (np.ones((1, 2)),)),
	'SIF pole': lambda e: SIF((np.eye(0), np.zeros((1, 0)), np.zeros((1, 0)), np.zeros((0, 1)), np.zeros((0, 1)), np.eye(1) * 2, np.eye(1), np.eye(1), np.eye(1))).Wo,
	'Filter': lambda e: Filter(num=[1.]),
	'quantize': lambda e: e.S(0).quantize(-1),
	'MSB': lambda e: e.S(1).computeNaiveMSB(None),
	'LSB': lambda e: e.S(1)._compute_LSB('1') if hasattr(e.S(1), '_compute_LSB') else 1,
	'dSSmp': lambda e: dSSmp(np.eye(2), np.eye(1), np.eye(1), np.eye(1)),
	'to_dTFmp': lambda e: dSSmp(np.eye(1), np.ones((1, 2)), np.eye(1), np.ones((1, 2))).to_dTFmp(300),
	'to_dTFmp delays': lambda e: dSSmp(np.eye(2, k=1), np.ones((2, 1)), np.ones((1, 2)), np.eye(1)).to_dTFmp(300),
	'inverse': lambda e: MPFMatrix(np.matrix([[1., 2.], [0., 1.]])).inv_lowtr(),
	'gabarit': lambda e: Gabarit(None, [(0, 1)], [1, 2]),
	'form': lambda e: e.F(0).dTF.to_dSS('unknown'),
	'multiband': lambda e: Gabarit(None, [(0, .1), (.2, .3), (.4, .5), (.6, None)], [0, (0, 1), 0, (0, 1)]).to_dTF(),
	'sollya': lambda e: Gabarit(None, [(0, .5), (.6, None)], [(0, -1), -20]).check_dTF(None),
	'names': lambda e: generateNames('x', 2, ['a']),
}

def state():
	return dict(cwd=os.getcwd(), prec=mpmath.mp.prec, dps=mpmath.mp.dps, printoptions=repr(sorted(np.get_printoptions().items(), key=str)), errors=repr(np.geterr()), environ=dict(os.environ),
		path=list(sys.path), recursion=sys.getrecursionlimit())

def generators():
	a = np.random.get_state()
	return repr((a[0], a[1].tolist(), a[2:])), random.getstate()

def draws(op):
	return op[0] in ('random', 'all') or len(op) > 2 and isinstance(op[2], list) and op[2] and op[2][0] in ('LGS', 'LCW')

def play(c, ops, keep=None):
	env = Env(c)
	mpmath.mp.prec = c['prec']
	out = []
	for i, op in enumerate(ops):
		random.seed(1)
		np.random.seed(1)
		s, g = state(), generators()
		with warnings.catch_warnings():
			warnings.simplefilter('ignore')
			try:
				r = results(env, op)
			except Invalid:
				r = None
			except (ValueError, ZeroDivisionError, ArithmeticError, np.linalg.LinAlgError) as e:
				r = ['refused', type(e).__name__]
		t = state()
		for k in s:
			assert s[k] == t[k], "%s is changed by %s: %r instead of %r" % (k, op[:3], t[k] if k != 'environ' else sorted(set(t[k].items()) ^ set(s[k].items())), s[k] if k != 'environ' else '')
		if not draws(op):
			assert generators() == g, "the random generators are changed by %s" % (op[:3],)
		out.append(r)
	return out if keep is None else out[keep]

def differ(a, b):
	if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
		if len(a) != len(b):
			return True
		if a and all(isinstance(x, (float, int)) for x in list(a) + list(b)):
			top = max([abs(x) for x in list(a) + list(b) if np.isfinite(x)] + [0.])
			return any((x != y and not (np.isnan(x) and np.isnan(y))) and not abs(x - y) <= 1e-7 * top for x, y in zip(a, b))
		return any(differ(x, y) for x, y in zip(a, b))
	if isinstance(a, float) and isinstance(b, float):
		return a != b and not abs(a - b) <= 1e-7 * max(abs(a), abs(b))
	return a != b

@check.part(histories(), quick=700, thorough=8000, shards=(8, 8), budget=(500, 1500), rule="histories of 2 to 8 operations (valid or refused ones) on two filters, two SIF, designs, matrices, random generators; each result is compared with the one of the same operation alone in a new process; non-trivial: at least two kinds of operations")
def independence(c, ctx):
	ops = c['ops']
	got = isolated(lambda: play(c, ops))
	for i, op in enumerate(ops):
		# alone (after the modifications of the same object)
		before = [o for o in ops[:i] if o[0] == 'sifset' and o[1] == op[1]] if op[0] in ('sif', 'sifset', 'text', 'cdouble', 'sim', 'str', 'wl') else []
		ref = isolated(lambda: play(c, before + [op], len(before)))
		assert not differ(got[i], ref), "the result of %s depends on what was done before (%s): %r instead of %r" % (op[:3], [o[0] for o in ops[:i]], got[i], ref)
	ctx.nontrivial(len({o[0] for o, r in zip(ops, got)}) >= 2)
	ctx.label('large' if any(o[0] == 'str' and o[2] for o in ops) else '', *{('refused ' if r and r[0] == 'refused' else '') + o[0] if o[0] not in ('fail', 'random', 'design') else '%s %s' % (o[0], o[1]) for o, r in zip(ops, got)})
