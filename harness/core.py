# coding: utf-8
"""
Common machinery of the checks: generated-input search driven by Hypothesis (vendored in /verif/vendor), with
- a deterministic run (pure function of the code and of VERIF_SEED),
- plain (JSON) cases, so that the shrunk failure is replayed without Hypothesis (./check ID --replay FILE),
- evidence (number of cases, number of distinct non-trivial ones, samples, distribution of the labels),
- known findings (deterministic probes of the listed genuine defects that are not repaired).
"""
import sys, os, json, time, hashlib, signal, traceback, io, tempfile, importlib, argparse, random

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('FIXIF_REPO', '/repo')
for _p in (os.path.join(VERIF, 'vendor'), os.path.join(VERIF, 'stubs'), HERE, REPO):
	sys.path.insert(0, _p)
if __name__ == '__main__':
	sys.modules['core'] = sys.modules['__main__']

SCRATCH = os.environ.get('VERIF_SCRATCH') or tempfile.mkdtemp(prefix='verif-')
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
CASE_CPU_LIMIT = float(os.environ.get('VERIF_CASE_CPU', 100))        # seconds of CPU for one single case, that normally lasts some milliseconds
SHRINK_LIMIT = float(os.environ.get('VERIF_SHRINK', 45))           # seconds


class Invalid(Exception):
	"""raised by a body to reject a case (counted)"""

class CaseHang(BaseException):
	"""the code under test does not terminate on a case"""

class StopSearch(BaseException):
	pass

class Ctx(object):
	"""collects what a case exercised"""
	def __init__(self):
		self.labels = []
		self.nontriv = False
	def label(self, *l):
		self.labels.extend(str(x) for x in l if x)
	def nontrivial(self, cond=True):
		self.nontriv = self.nontriv or bool(cond)


class Part(object):
	def __init__(self, name, strategy, body, quick, thorough, rule, shards, budget):
		self.name, self.strategy, self.body, self.rule = name, strategy, body, rule
		self.n = {'quick': quick, 'thorough': thorough}
		self.shards = shards
		self.budget = budget


class Check(object):
	"""a property: a list of generated parts + the probes of the (possibly) known findings"""
	def __init__(self, pid, assumptions=()):
		self.pid = pid
		self.parts = []
		self.probes = []
		self.assumptions = list(assumptions)

	def part(self, strategy, quick=300, thorough=6000, rule="", shards=(1, 4), budget=(240, 1500)):
		def deco(f):
			# (the numbers of cases of the quick tier: four times the ones that are written for the cheap checks, twice for the others)
			self.parts.append(Part(f.__name__, strategy, f, quick * (4 if self.pid <= 'C14' else 2), max(thorough, quick * 8), rule, {'quick': shards[0], 'thorough': shards[1]},
				{'quick': budget[0], 'thorough': budget[1]}))
			return f
		return deco

	def probe(self, key, what):
		"""deterministic regression check, for one specific input / call site"""
		def deco(f):
			self.probes.append((key, what, f))
			return f
		return deco


def reset_state(case_repr):
	import numpy, mpmath
	h = int(hashlib.sha256(case_repr.encode()).hexdigest()[:8], 16)
	random.seed(h)
	numpy.random.seed(h)
	mpmath.mp.prec = 53


def _on_hang(signum, frame):
	raise CaseHang("no answer after %d s of CPU" % CASE_CPU_LIMIT)


def run_case(part_body, case, ctx):
	"""run one case; any exception is a failure (except Invalid)"""
	rep = json.dumps(case, sort_keys=True)
	reset_state(rep)
	out, sys.stdout = sys.stdout, io.StringIO()
	old = signal.signal(signal.SIGPROF, _on_hang)
	signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
	try:
		part_body(json.loads(rep), ctx)
	except SystemExit as e:
		raise AssertionError("the code exits (SystemExit %r)" % (e.code,))
	finally:
		signal.setitimer(signal.ITIMER_PROF, 0)
		signal.signal(signal.SIGPROF, old)
		sys.stdout = out


def describe(e):
	tb = traceback.extract_tb(e.__traceback__)
	where = [f for f in tb if '/fixif/' in f.filename and '/stubs/' not in f.filename]
	last = (where or list(tb))[-1] if tb else None
	return "%s: %s%s" % (type(e).__name__, str(e)[:600], " [at %s:%s]" % (os.path.basename(last.filename), last.lineno) if last else "")


def run_part(part, seed, tier, shard, nshards):
	"""Hypothesis campaign on one part; returns a plain dict"""
	import hypothesis
	from hypothesis import given, settings, Phase, HealthCheck
	res = dict(part=part.name, shard=shard, evaluations=0, invalid=0, nontrivial=[], samples=[], labels={}, failure=None, error=None, skipped=0)
	distinct = set()
	t0 = time.time()
	best = {'case': None, 'msg': None, 't': None}
	history = []       # all the cases run by this process until the first failure (a failure may depend on them: caches, global state)
	nmax = max(1, part.n[tier] // nshards)
	budget = part.budget[tier]

	def inner(case):
		now = time.time()
		if best['t'] is not None and now - best['t'] > SHRINK_LIMIT:
			raise StopSearch()
		if best['t'] is None and now - t0 > budget:
			res['skipped'] += 1
			return
		ctx = Ctx()
		if best['t'] is None:
			history.append(case)
		try:
			run_case(part.body, case, ctx)
		except Invalid:
			res['invalid'] += 1
			hypothesis.reject()
		except CaseHang as e:
			best.update(case=case, msg="does not terminate: %s" % e, t=now)
			raise StopSearch()
		except Exception as e:
			best.update(msg=describe(e), case=case, tb=traceback.format_exc()[-4000:])
			if best['t'] is None:
				best['t'] = now
			raise
		finally:
			res['evaluations'] += 1
		for l in ctx.labels:
			res['labels'][l] = res['labels'].get(l, 0) + 1
		if ctx.nontriv:
			rep = json.dumps(case, sort_keys=True)
			h = hashlib.md5(rep.encode()).hexdigest()[:16]
			if h not in distinct:
				distinct.add(h)
				if len(res['samples']) < 3 or (len(distinct) in (50, 200) and len(rep) < 4000):
					res['samples'].append(case if len(rep) < 3000 else rep[:3000] + '...')

	test = given(part.strategy() if callable(part.strategy) else part.strategy)(inner)
	test = settings(max_examples=nmax, database=None, deadline=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
		phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)(test)
	test = hypothesis.seed(seed * 1009 + shard * 7919 + int(hashlib.md5(part.name.encode()).hexdigest()[:6], 16))(test)
	try:
		test()
	except StopSearch:
		pass
	except BaseException as e:
		if best['case'] is None:
			res['error'] = traceback.format_exc()[-3000:]
	if best['case'] is not None:
		# the failing case has to fail again, by itself (a failure that does not reproduce is an error of the machinery)
		if not best['msg'].startswith('does not terminate'):
			try:
				run_case(part.body, best['case'], Ctx())
				# does not fail alone: the main process (clean state) looks for a failing history
				res['failure'] = dict(case=None, history=history, msg=best['msg'], tb=best.get('tb'))
			except Exception as e:
				res['failure'] = dict(case=best['case'], msg=describe(e), tb=best.get('tb'))
		else:
			res['failure'] = dict(case=best['case'], msg=best['msg'], tb=None)
	res['nontrivial'] = sorted(distinct)
	res['wall'] = time.time() - t0
	return res


def history_fails(body, cases):
	"""run the cases one after the other in a fresh child: does the last one (only) fail?"""
	pid = os.fork()
	if pid == 0:
		rc = 0
		try:
			for i, c in enumerate(cases):
				try:
					run_case(body, c, Ctx())
				except Invalid:
					pass
				except Exception:
					rc = 7 if i == len(cases) - 1 else 8
					break
		except BaseException:
			rc = 9
		finally:
			os._exit(rc)
	return os.WEXITSTATUS(os.waitpid(pid, 0)[1]) == 7


def minimal_history(body, cases):
	"""None if the history does not fail again, otherwise a shorter failing history"""
	t0 = time.time()
	if not history_fails(body, cases):
		return None
	step = len(cases) // 2
	while step >= 1 and time.time() - t0 < 60:
		i = 0
		while i + step < len(cases) and time.time() - t0 < 60:
			c = cases[:i] + cases[i + step:]
			if history_fails(body, c):
				cases = c
			else:
				i += step
		step //= 2
	return cases


def load_check(pid):
	mod = importlib.import_module('props.%s' % pid.lower())
	return mod.check


def known_findings():
	keys = {}
	f = os.path.join(VERIF, 'known_findings.txt')
	if os.path.exists(f):
		for line in open(f, encoding='utf-8'):
			line = line.strip()
			if line.startswith('known:'):
				d = line[6:].split(None, 2)
				pid = d[0].split('=', 1)[1]
				key = d[1].split('=', 1)[1]
				keys[(pid, key)] = d[2] if len(d) > 2 else ''
	return keys


def write_replay(pid, part, case, msg, tb=None):
	d = os.path.join(VERIF, 'replay')
	os.makedirs(d, exist_ok=True)
	path = os.path.join(d, '%s-%s.json' % (pid, part))
	with open(path, 'w') as f:
		json.dump(dict(property=pid, part=part, case=case, message=msg, traceback=tb,
			how="cd /verif && ./check %s --replay %s" % (pid, path)), f, indent=1)
	return path


def worker(fn, args, outfile):
	"""run in a forked child"""
	try:
		r = fn(*args)
	except BaseException:
		r = dict(part=getattr(args[0], 'name', '?'), error=traceback.format_exc()[-3000:], failure=None, evaluations=0, invalid=0, nontrivial=[], samples=[], labels={}, skipped=0, shard=0, wall=0)
	with open(outfile + '.tmp', 'w') as f:
		json.dump(r, f)
	os.rename(outfile + '.tmp', outfile)


def run_jobs(jobs):
	"""jobs: list of (fn, args) -> results in order; run in forked children, at most NCPU at a time"""
	d = tempfile.mkdtemp(dir=SCRATCH)
	results = [None] * len(jobs)
	pending = list(range(len(jobs)))
	running = {}
	while pending or running:
		while pending and len(running) < NCPU:
			i = pending.pop(0)
			out = os.path.join(d, '%d.json' % i)
			pid = os.fork()
			if pid == 0:
				try:
					workdir = os.path.join(d, 'w%d' % i)
					os.makedirs(workdir)
					os.chdir(workdir)
					worker(jobs[i][0], jobs[i][1], out)
				except BaseException:
					traceback.print_exc()
				finally:
					os._exit(0)
			running[pid] = (i, out)
		pid, status = os.wait()
		i, out = running.pop(pid)
		if os.path.exists(out):
			results[i] = json.load(open(out))
		else:
			results[i] = dict(part=getattr(jobs[i][1][0], 'name', '?'), shard=0, wall=0, evaluations=0, invalid=0, nontrivial=[], samples=[], labels={}, skipped=0,
				error="worker died with status %d" % status, failure=None)
	return results


def run_probe(check, idx):
	key, what, f = check.probes[idx]
	r = dict(key=key, what=what, fails=None, error=None)
	try:
		run_case(lambda case, ctx: f(), dict(probe=key), Ctx())
	except CaseHang as e:
		r['fails'] = 'does not terminate'
	except Exception as e:
		r['fails'] = describe(e)
	return r


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument('pid')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
	ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
	ap.add_argument('--part')
	ap.add_argument('--replay')
	ap.add_argument('--scale', type=float, default=1.)
	ap.add_argument('--no-evidence', action='store_true')
	ap.add_argument('-v', action='store_true')
	a = ap.parse_args()
	t0 = time.time()
	pid = a.pid
	sys.dont_write_bytecode = True
	try:
		check = load_check(pid)
	except Exception as e:
		tb = traceback.extract_tb(e.__traceback__)
		if any(f.filename.startswith(REPO + '/') for f in tb):
			# the code under test cannot even be imported
			path = write_replay(pid, 'import', None, describe(e), traceback.format_exc())
			print("the code under test cannot be imported: %s" % describe(e))
			print("VIOLATION property=%s replay=%s" % (pid, path))
			return 1
		traceback.print_exc()
		return 2

	if a.replay:
		rep = json.load(open(a.replay))
		if rep['part'] == 'import':
			print("replay: the code is imported without error")
			return 0
		if rep['part'].startswith('probe:'):
			f = [p[2] for p in check.probes if p[0] == rep['part'][6:]][0]
			body = lambda case, ctx: f()
			rep['case'] = dict(probe=rep['part'][6:])
		else:
			body = [p for p in check.parts if p.name == rep['part']][0].body
		try:
			cases = rep['case']['history'] if isinstance(rep['case'], dict) and list(rep['case']) == ['history'] else [rep['case']]
			for c in cases:
				run_case(body, c, Ctx())
		except (Exception, CaseHang) as e:
			traceback.print_exc()
			print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
			return 1
		print("replay: no failure")
		return 0

	parts = [p for p in check.parts if a.part is None or p.name == a.part]
	for p in parts:
		for t in p.n:
			p.n[t] = max(1, int(p.n[t] * a.scale))
	jobs = []
	for p in parts:
		ns = p.shards[a.tier]
		for s in range(ns):
			jobs.append((run_part, (p, a.seed, a.tier, s, ns)))
	probes = list(range(len(check.probes))) if a.part is None else []
	pjobs = [(run_probe, (check, i)) for i in probes]
	results = run_jobs(pjobs + jobs)
	presults, results = results[:len(pjobs)], results[len(pjobs):]

	known = known_findings()
	nviol, err = 0, None
	lines = []
	for r in presults:
		if r.get('error'):
			err = r['error']
		elif r['fails']:
			if (pid, r['key']) in known:
				lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, r['key'], known[(pid, r['key'])]))
			else:
				path = write_replay(pid, 'probe:' + r['key'], None, r['fails'])
				lines.append("%s (%s): %s" % (r['key'], r['what'], r['fails']))
				lines.append("VIOLATION property=%s replay=%s" % (pid, path))
				nviol += 1
	failed = set()
	for r in results:
		if r['failure'] and 'history' in r['failure'] and r['part'] not in failed:
			h = minimal_history([p for p in parts if p.name == r['part']][0].body, r['failure']['history'])
			if h is None:
				err = "non reproducible failure on part %s: %s\n%s" % (r['part'], r['failure']['msg'], r['failure'].get('tb'))
				continue
			r['failure'] = dict(case=dict(history=h), msg="(after the previous cases of the history) " + r['failure']['msg'], tb=r['failure'].get('tb'))
		if r['failure'] and r['part'] not in failed:
			failed.add(r['part'])
			path = write_replay(pid, r['part'], r['failure']['case'], r['failure']['msg'], r['failure'].get('tb'))
			lines.append("part %s: %s" % (r['part'], r['failure']['msg']))
			lines.append("  minimal case: %s" % json.dumps(r['failure']['case'])[:1500])
			lines.append("VIOLATION property=%s replay=%s" % (pid, path))
			nviol += 1
		if r['error']:
			err = r['error']

	cov = {}
	per = []
	nontriv = set()
	labels = {}
	for p in parts:
		rs = [r for r in results if r['part'] == p.name]
		d = set()
		for r in rs:
			d.update(r['nontrivial'])
		lab = {}
		for r in rs:
			for k, v in r['labels'].items():
				lab[k] = lab.get(k, 0) + v
		nontriv.update((p.name, x) for x in d)
		per.append(dict(part=p.name, evaluations=sum(r['evaluations'] for r in rs), distinct_nontrivial=len(d), rejected=sum(r['invalid'] for r in rs),
			not_run_out_of_budget=sum(r['skipped'] for r in rs), rule=p.rule, labels=dict(sorted(lab.items(), key=lambda kv: -kv[1])[:60]), wall_s=round(max([r['wall'] for r in rs] or [0]), 1)))
	samples = []
	for r in results:
		for s in r['samples'][:2]:
			if len(samples) < 24:
				samples.append(dict(part=r['part'], case=s))
	cov['evaluations'] = sum(x['evaluations'] for x in per)
	cov['distinct_nontrivial'] = len(nontriv)
	cov['rule'] = " || ".join("%s: %s" % (x['part'], x['rule']) for x in per)
	cov['samples'] = samples
	cov['parts'] = per
	cov['probes'] = [dict(key=r.get('key'), what=r.get('what'), result='still fails (known finding)' if r.get('fails') and (pid, r['key']) in known else ('fails' if r.get('fails') else 'passes')) for r in presults]
	ev = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov, assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
	if not a.no_evidence and a.part is None:
		os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
		with open(os.path.join(VERIF, 'evidence', '%s.json' % pid), 'w') as f:
			json.dump(ev, f, indent=1)
	for x in per:
		print("%s %-28s %6d cases, %6d distinct non-trivial, %d rejected, %.1fs%s" % (pid, x['part'], x['evaluations'], x['distinct_nontrivial'], x['rejected'], x['wall_s'],
			", %d NOT RUN (budget)" % x['not_run_out_of_budget'] if x['not_run_out_of_budget'] else ''))
		if a.v:
			print("     ", x['labels'])
	for l in lines:
		print(l)
	if nviol:
		return 1
	if err:
		print("ERROR of the machinery:\n" + err, file=sys.stderr)
		return 2
	print("%s: property held on everything explored (%.1fs)" % (pid, time.time() - t0))
	return 0


if __name__ == '__main__':
	rc = main()
	sys.stdout.flush()
	os._exit(rc)
