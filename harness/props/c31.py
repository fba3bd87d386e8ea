# coding: utf-8
"""C31: registry of the structures and iteration over all the realizations of a filter"""
from core import Check, Invalid
from gens import *
from hypothesis import strategies as st
import numpy as np, itertools
from oracle import *
import systems as sy, sifs
from props import c20
from fixif.LTI import Filter
from fixif.Structures import DFI, DFII, State_Space, rhoDFII, LGS, LCW, Structure as StructMod
from fixif.Structures.Structure import Structure, makeARealization, iterStructuresAndOptions, iterAllRealizationsRandomFilter

check = Check('C31', assumptions=["only the structures that can run here are registered (no LWDF without Matlab, no balanced state-space without slycot)"])

DECLARED = dict(DFI=dict(nbSum=(1, 2), transposed=(False, True)), DFII=dict(transposed=(False, True)), dSS=dict(form=(None, 'ctrl', 'obs')),
	rhoDFII=dict(transposed=(True, False), equiv_dSS=(False, True), scaling=(None, 'l2', 'l2-relaxed')), LGS=dict(transposed=(False, True)), LCW=dict(transposed=(False, True)))

def expected(n, p, q, stable):
	out = []
	for name, opt in DECLARED.items():
		for v in itertools.product(*opt.values()):
			o = dict(zip(opt, v))
			ok = p == q == 1 or (name == 'dSS' and o['form'] is None)
			if name in ('rhoDFII', 'LGS', 'LCW'):
				ok = ok and stable
			if name in ('LGS', 'LCW'):
				ok = ok and n >= 2
			if ok:
				out.append((name, tuple(sorted((k, str(x)) for k, x in o.items()))))
	return sorted(out)

@st.composite
def filters(draw):
	k = draw(st.sampled_from(['siso', 'siso', 'mimo']))
	f = draw(c20.siso_filter(n=(1, 4))) if k == 'siso' else dict(draw(sy.state_space(n=(1, 4))), type='ss')
	return dict(f=f, stable=draw(st.booleans()))

def parse(sn):
	"""(options) of the name of a structure"""
	inside = sn[sn.rindex('(') + 1:sn.rindex(')')]
	return tuple(sorted(tuple(x.split(':')) for x in inside.split(', ')))

@check.part(filters(), quick=120, thorough=2000, shards=(2, 8), rule="filters (stable or not, one or several variables): all the structures and options are iterated; non-trivial: stable single-variable filter of order >= 2")
def iteration(d, ctx):
	f = d['f']
	F_ = c20.make_filter(f, stable=d['stable'])
	n = F_.order
	p, q = (1, 1) if 'num' in f else (len(f['D']), len(f['D'][0]))
	exp = expected(n, p, q, d['stable'])
	got = sorted((s._shortName if hasattr(s, '_shortName') else s.name, tuple(sorted((k, str(x)) for k, x in (o or {}).items()))) for s, o in iterStructuresAndOptions(F_))
	assert got == exp, "structures and options iterated: %s instead of %s" % (got, exp)
	ctx.nontrivial(d['stable'] and p == q == 1 and n >= 2)
	ctx.label('stable' if d['stable'] else 'unknown stability', '%dx%d' % (p, q) if p * q > 1 else 'SISO')
	if 'num' not in f:
		nA = max(1., np.abs(np.array(f['A'])).sum(axis=1).max())
		if nA > 2.5:
			return
	if p == q == 1 and d['stable']:
		num, den = np.asarray(F_.dTF.num).flatten(), np.asarray(F_.dTF.den).flatten()
		W = sy.mk_dSS(dict(zip('ABCD', [m.tolist() for m in c20.rho_states(num, den)]))).Wc
		if min(np.diag(W)) <= max(1e-8 * max(np.diag(W)), 1e-14):
			return        # (no l2 scaling)
	seen = []
	N = 2 * n + 2
	ref = c20.reference(f, N)
	scale = max(1., float(max(abs(x) for m in ref for r in m for x in r)))
	ctx.label('realizations')
	for R in F_.iterAllRealizations():
		name = R.shortName
		assert R.filter is F_, "filter of the realization"
		full = {'DFI': 'Direct Form I', 'DFII': 'Direct Form II', 'dSS': 'State-Space', 'rhoDFII': 'rho Direct Form II', 'LGS': 'Li-Gevers-Sun', 'LCW': 'Li-Chu-Wu'}[name]
		assert R.structureName.startswith(full + ' ('), "name %r of a %s" % (R.structureName, name)
		assert R.structureName in R.name and F_.name in R.name and str(R).startswith(R.name)
		seen.append((name, parse(R.structureName)))
		assert (R.p, R.q) == (p, q)
		got = sy.imp_ss(R.dSS, N)
		for k in range(N):
			for i in range(p):
				for j in range(q):
					assert abs(float(got[k][i][j] - ref[k][i][j])) <= 1e-3 * scale, "%s: impulse response %r instead of %r at time %d" % (R.name, float(got[k][i][j]), float(ref[k][i][j]), k)
	assert sorted(seen) == exp, "realizations built: %s instead of %s" % (sorted(seen), exp)


@check.part(st.tuples(sy.transfer_function(n=(2, 4)), st.sampled_from(c20.OPTIONS + c20.RHO + c20.LG), st.sampled_from(['opts', 'default', 'named', 'badname', 'badopt']), st.text(alphabet='abcXYZ -1', max_size=8)).map(list), quick=300, thorough=4000, rule="realizations asked by their name, with options, default options or given names; non-trivial: options given")
def by_name(d, ctx):
	H, (name, opt), how, txt = d
	F_ = Filter(num=H['num'], den=H['den'], stable=True, name='f' + txt)
	ctx.label(how, name)
	S = Structure.getFromName(name)
	assert S is c20.STRUCT[name]
	if how == 'badname':
		if txt in DECLARED:
			return
		for fn in (lambda: Structure.getFromName(txt), lambda: makeARealization(F_, txt)):
			try:
				fn()
			except ValueError as e:
				assert '%s' not in str(e)
				continue
			raise AssertionError("unknown structure %r accepted" % txt)
		return
	if how == 'badopt':
		bad = {'DFI': dict(nbSum=3), 'dSS': dict(form='xx'), 'rhoDFII': dict(scaling='xx')}.get(name)
		if bad is None:
			return
		try:
			makeARealization(F_, name, **bad)
		except ValueError:
			return
		raise AssertionError("option %s accepted by %s" % (bad, name))
	if name == 'rhoDFII' and opt['scaling'] and how != 'default':
		opt = dict(opt, scaling=None)
	if how == 'default':
		R1, R2 = makeARealization(F_, name), S(F_, **{k: v[0] for k, v in DECLARED[name].items()})
	elif how == 'opts':
		R1, R2 = makeARealization(F_, name, **opt), S.makeRealization(F_, **opt)
		ctx.nontrivial()
	else:
		R1, R2 = makeARealization(F_, name, **opt), S.makeRealization(F_, structName='my ' + txt, shortName='s' + txt, **opt)
		assert R2.structureName == 'my ' + txt and R2.shortName == 's' + txt, "names %r %r" % (R2.structureName, R2.shortName)
		ctx.nontrivial()
	if name not in ('LGS', 'LCW'):        # (these use random interpolation points)
		assert np.array_equal(np.asarray(R1.Z), np.asarray(R2.Z)), "different realizations"
	assert R1.shortName == name
	if how != 'named':
		assert R1.structureName == R2.structureName
	o = {k: v[0] for k, v in DECLARED[name].items()} if how == 'default' else opt
	full = dict({k: v[0] for k, v in DECLARED[name].items()}, **o)
	assert parse(R1.structureName) == tuple(sorted((k, str(v)) for k, v in full.items())), "name %r for the options %s" % (R1.structureName, full)


@check.part(st.tuples(st.integers(1, 3), st.integers(2, 4), st.integers(0, 10 ** 6)).map(list), quick=15, thorough=200, shards=(1, 4), rule="realizations of random filters; non-trivial: at least 2 filters")
def random_filters(d, ctx):
	k, n, s = d
	np.random.seed(s)
	names = []
	for R in iterAllRealizationsRandomFilter(k, n=(n, n + 1), p=(1, 5), q=(1, 4), ftype='SISO'):
		F_ = R.filter
		if F_.name not in names:
			names.append(F_.name)
			count = []
			names_ = count
		names_.append((R.shortName, parse(R.structureName)))
		assert F_.order == n and F_.isSISO() and F_.isStable()
		if names[-1] == F_.name and len(names_) == len(expected(n, 1, 1, True)):
			assert sorted(names_) == expected(n, 1, 1, True)
	assert len(names) == k and len(names_) == len(expected(n, 1, 1, True)), "%d filters instead of %d" % (len(names), k)
	# numbers of outputs and inputs
	P, Q = (1, 3), (4, 6)
	for R in iterAllRealizationsRandomFilter(1, (n, n + 1), P, Q, ftype='MIMO'):
		assert R.filter.p in range(*P) and R.filter.q in range(*Q) and R.filter.order == n, "size %s" % ((R.filter.p, R.filter.q),)
	ctx.nontrivial(k >= 2)


CURRENT = dict(accept=None, made=[])

@st.composite
def user_structures(draw):
	names = draw(st.lists(st.sampled_from(['a', 'b', 'form', 'transposed', 'n']), max_size=3, unique=True))
	return dict(f=draw(filters()), options={k: draw(st.lists(st.one_of(st.integers(-2, 3), st.booleans(), st.none(), st.sampled_from(['x', 'y', ''])), min_size=1, max_size=3, unique_by=repr)) for k in names},
		empty=draw(st.booleans()), refused=draw(st.integers(0, 5)), names=draw(st.booleans()), k=draw(st.integers(0, 2)))

@check.part(user_structures(), quick=100, thorough=1500, shards=(2, 8), rule="a structure of the user (any options, or none; some refused) is registered, found by its name and iterated like the others; non-trivial: at least 2 options")
def user_structure(d, ctx):
	f = d['f']['f']
	F_ = c20.make_filter(f, stable=d['f']['stable'])
	opts = {k: tuple(v) for k, v in d['options'].items()} or (None if d['empty'] else {})
	combos = [dict(zip(opts, v)) for v in itertools.product(*opts.values())] if opts else [{}]
	accepted = [o for i, o in enumerate(combos) if i % 6 != d['refused']]
	same = lambda a, b: repr(sorted(a.items())) == repr(sorted(b.items()))
	def accept(filt, **o):
		assert filt is F_
		return any(same(o, x) for x in accepted)
	made = []
	S = F_.dSS
	def make(filt, **o):
		assert filt is F_
		made.append(o)
		n, p, q = S.size
		z = np.zeros
		res = dict(JtoS=(np.eye(0), z((n, 0)), z((p, 0)), z((0, n)), z((0, q)), S.A, S.B, S.C, S.D))
		if d['names']:
			res.update(surnameVarX=['s%d' % i for i in range(n)])
		return res
	CURRENT['accept'] = accept
	short = 'verif-%d' % d['k']
	ST = Structure(short, "Structure of the user", make, lambda filt, **o: accept(filt, **o) if CURRENT['accept'] is accept else False, options=opts)
	try:
		assert Structure.getFromName(short) is ST and any(x is ST for x in Structure.iterAllStructures())
		assert ST.name == "Structure of the user" and (ST.options or None) == (opts or None)
		for o in combos:
			assert bool(ST.canAcceptFilter(F_, **o)) == any(same(o, x) for x in accepted), "options %s" % o
		got = [o or {} for s, o in iterStructuresAndOptions(F_) if s is ST]
		assert len(got) == len(accepted) and all(same(a, b) for a, b in zip(sorted(got, key=repr), sorted(accepted, key=repr))), "options iterated %s instead of %s" % (got, accepted)
		assert not made
		for o in accepted:
			del made[:]
			R = makeARealization(F_, short, **o)
			assert len(made) == 1 and same(made[0], o), "made with %s instead of %s" % (made, o)
			assert R.filter is F_ and R.shortName == short and R.structureName.startswith("Structure of the user (") and R.structureName.endswith(')')
			for k, v in o.items():
				assert '%s:%s' % (k, v) in R.structureName, R.structureName
			assert np.array_equal(R.AZ, S.A) and np.array_equal(R.DZ, S.D)
		# default options: the first values
		del made[:]
		R = ST(F_)
		assert len(made) == 1 and same(made[0], combos[0]), "made with %s instead of the default options %s" % (made, combos[0])
		if accepted and d['f']['stable'] is False:
			ctx.label('several structures')
		if d['f']['stable'] is False or not F_.isSISO():
			del made[:]
			Rs = [R for R in F_.iterAllRealizations() if R.shortName == short]
			assert len(Rs) == len(accepted) and all(same(a, b) for a, b in zip(sorted(made, key=repr), sorted(accepted, key=repr))), "realizations built with %s instead of %s" % (made, accepted)
	finally:
		CURRENT['accept'] = None
	assert not any(s is ST for s, o in iterStructuresAndOptions(F_))
	ctx.nontrivial(bool(opts) and len(opts) >= 2)
	ctx.label('%d options' % len(opts or ()), 'some refused' if len(accepted) < len(combos) else 'all accepted')
