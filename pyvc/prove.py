"""
pyvc.prove -- run the harnesses of a contracts file in proof mode.
"""
import sys, os, time, json, importlib.util, multiprocessing, traceback

def load_contracts(path, symbolic=False):
	name = 'contracts.' + os.path.basename(path)[:-3]
	spec = importlib.util.spec_from_file_location(name, path)
	mod = importlib.util.module_from_spec(spec)
	sys.modules[name] = mod
	if symbolic:
		from pyvc import transform, models
		with open(path) as f:
			code, _ = transform.instrument(f.read(), path, name, {})
		mod.__dict__.update(models.HOOKS)
		exec(code, mod.__dict__)
	else:
		spec.loader.exec_module(mod)
	return mod

class LoopsOnly(object):
	pass

def setup(path):
	"two passes: collect the loop contracts, then import the instrumented code"
	here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
	if here not in sys.path:
		sys.path.insert(0, here)
	from pyvc import transform, models, loops, api, stdmodels
	transform.install()
	# loop contracts live in a companion module without repository imports
	lp = path[:-3] + '_loops.py'
	if os.path.exists(lp):
		load_contracts(lp)
	for l in api.LOOPS:
		loops.register(loops.LoopSpec(**l))
	m = load_contracts(path, True)
	for key, fn in api.STUBS:
		modname, q = key.split(':')
		o = sys.modules.get(modname)
		for part in q.split('.'):
			o = getattr(o, part, None)
		if o is not None:
			models.STUBS[o] = make_stub(o, fn)
	return m

def make_stub(o, fn):
	from pyvc import loops
	def stub(*a, **k):
		if loops.DISABLED:
			return o(*a, **k)
		return fn(*a, **k)
	return stub

def run_harness(h, seconds=None):
	from pyvc import core, api
	ex = core.Explorer(h.name, max_paths=h.paths, seconds=seconds or h.seconds)
	t = time.monotonic()
	ex.run(h.fn, api.SymbolicV)
	return summary(h, ex, time.monotonic() - t)

def enc(w):
	import pickle, base64
	return base64.b64encode(pickle.dumps(w)).decode('ascii')

def dec(t):
	import pickle, base64
	return pickle.loads(base64.b64decode(t))

def summary(h, ex, wall):
	by = {}
	for o in ex.obligations:
		d = by.setdefault(o.name, {'n': 0, 'discharged': 0, 'backend': {}, 'seconds': 0.0})
		d['n'] += 1
		d['discharged'] += o.status == 'discharged'
		d['backend'][o.backend] = d['backend'].get(o.backend, 0) + 1
		d['seconds'] += o.seconds
	return {
		'harness': h.name, 'mode': h.mode, 'bound': h.bound, 'functions': h.functions,
		'paths': ex.paths, 'completed': ex.completed,
		'obligations': len(ex.obligations),
		'discharged': sum(o.status == 'discharged' for o in ex.obligations),
		'named': by,
		'failures': [{'name': o.name, 'status': o.status, 'backend': o.backend, 'opaque': o.opaque, 'detail': o.detail[-3000:]} for o in ex.failures],
		'unsupported': ex.unsupported, 'degraded': ex.degraded,
		'witnesses': [(n, enc(w)) for n, w in ex.witnesses[:40]],
		'covered': sorted(ex.covered),
		'queries': ex.stats['queries'], 'solver_s': round(ex.stats['solver_s'], 3), 'wall_s': round(wall, 3),
	}

def _worker(i, q, unstub=False):
	from pyvc import api
	h = api.REGISTRY[i]
	try:
		r = run_harness(h)
		r['internal'] = h.internal
		if unstub or (not h.internal and (r['unsupported'] or any(f['name'].startswith('loop ') for f in r['failures']))):
			# a loop contract or the engine does not fit the code: bounded unrolling
			from pyvc import loops
			loops.DISABLED = True
			r2 = run_harness(h, seconds=min(h.seconds, 90))
			r['unrolled'] = {k: r2[k] for k in ('obligations', 'discharged', 'unsupported', 'degraded', 'wall_s')}
			r['witnesses'] = r2['witnesses'] + r['witnesses']
			r['unrolled_failures'] = r2['failures']
	except BaseException as e:
		r = {'harness': h.name, 'mode': h.mode, 'bound': h.bound, 'functions': h.functions, 'crash': traceback.format_exc()[-4000:],
			'obligations': 0, 'discharged': 0, 'failures': [], 'unsupported': ['engine crash: %s' % e], 'degraded': [], 'witnesses': [],
			'named': {}, 'covered': [], 'queries': 0, 'solver_s': 0, 'wall_s': 0, 'paths': 0, 'completed': 0}
	q.put((i, r))

def prove_all(path, only=None, jobs=8, budget=700):
	from pyvc import api
	setup(path)
	rs = prove_some(path, only, jobs, budget)
	if any(r.get('internal') and (r['failures'] or r['unsupported']) for r in rs):
		# a helper no longer satisfies the contract its callers rely on
		by = {r['harness']: r for r in prove_some(path, only, jobs, budget // 2, True)}
		rs = [r if r.get('internal') else by.get(r['harness'], r) for r in rs]
	return rs

def prove_some(path, only, jobs, budget, unstub=False):
	from pyvc import api
	todo = [i for i, h in enumerate(api.REGISTRY) if h.mode != 'sampled' and (not only or h.name in only)]
	ctxm = multiprocessing.get_context('fork')
	q = ctxm.Queue()
	running = {}
	results = {}
	end = time.monotonic() + budget
	pending = list(todo)
	while pending or running:
		while pending and len(running) < jobs:
			i = pending.pop(0)
			p = ctxm.Process(target=_worker, args=(i, q, unstub))
			p.start()
			running[i] = (p, time.monotonic())
		try:
			i, r = q.get(timeout=0.5)
			results[i] = r
			running.pop(i)[0].join()
		except Exception:
			pass
		now = time.monotonic()
		for i, (p, t0) in list(running.items()):
			h = api.REGISTRY[i]
			dead = not p.is_alive() and q.empty()
			if now - t0 > h.seconds + 150 or now > end or dead:
				if dead:
					time.sleep(0.2)
					if not q.empty():
						continue
				p.kill()
				running.pop(i)
				results[i] = {'harness': h.name, 'mode': h.mode, 'bound': h.bound, 'functions': h.functions, 'crash': '' ,
					'obligations': 0, 'discharged': 0, 'failures': [], 'unsupported': ['worker ' + ('died' if dead else 'timed out')], 'degraded': [], 'witnesses': [],
					'named': {}, 'covered': [], 'queries': 0, 'solver_s': 0, 'wall_s': round(now - t0, 1), 'paths': 0, 'completed': 0}
	return [results[i] for i in todo]

def main():
	path = sys.argv[1]
	only = set(sys.argv[2:])
	from pyvc import api
	if os.environ.get('PYVC_DEBUG'):
		setup(path)
		rs = [run_harness(h) for h in api.REGISTRY if h.mode != 'sampled' and (not only or h.name in only)]
	else:
		rs = prove_all(path, only, jobs=int(os.environ.get('PYVC_JOBS', '8')))
	if os.environ.get('PYVC_JSON'):
		from pyvc import transform, models, loops
		with open(os.environ['PYVC_JSON'], 'w') as f:
			json.dump({'results': rs, 'loops': sorted('%s#%d' % k for k in loops.SPECS), 'trust': api.TRUST,
				'sources': {m: d[1][:16] for m, d in sorted(transform.SOURCES.items())}}, f)
		return
	bad = 0
	for r in rs:
		ok = r['obligations'] and r['obligations'] == r['discharged'] and not r['unsupported'] and not r['failures']
		bad += not ok
		print('%-4s %-40s %4d/%-4d paths %-4d (%d) %6.1fs' % ('ok' if ok else 'BAD', r['harness'], r['discharged'], r['obligations'], r['paths'], r['completed'], r['wall_s']))
		if not ok:
			for f in r['failures'][:4]:
				print('     FAIL', f['name'], f['status'], f['detail'][-1200:])
			for u in sorted(set(r['unsupported']))[:6]:
				print('     UNSUP', u)
			for n, w in r['witnesses'][:3]:
				print('     WIT', n, repr(dec(w))[:400])
			if r.get('crash'):
				print(r['crash'])
	sys.exit(1 if bad else 0)

if __name__ == '__main__':
	sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
	from pyvc import prove
	prove.main()
