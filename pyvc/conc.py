"""
pyvc.conc -- concrete executions of the harnesses on the natively imported code
(compiled C extension included): replay of counter-models, search of failing
inputs, bounded stand-ins.

  conc.py CONTRACTS.py REQUEST.json RESPONSE.json
"""
import sys, os, json, time, random, signal, resource, multiprocessing, traceback

class Hang(BaseException):
	pass

def _alarm(sig, frame):
	raise Hang()

RUN_LIMIT = 20.0

def one(h, given, rng, size):
	from pyvc import api
	signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT)
	try:
		return api.run_concrete(h, given, rng, size)
	except Hang:
		return ('fail', None, 'no result within %d s' % RUN_LIMIT)
	finally:
		signal.setitimer(signal.ITIMER_REAL, 0)

class Recording(object):
	pass

def record(h, given, rng_state, size):
	"rerun to recover the inputs of a failing run"
	from pyvc import api
	rng = random.Random()
	rng.setstate(rng_state)
	v = api.ConcreteV(given, rng, size)
	signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT)
	try:
		h.fn(v)
	except BaseException:
		pass
	finally:
		signal.setitimer(signal.ITIMER_REAL, 0)
	return v.inputs

def search(h, witnesses, seed, runs, seconds):
	from pyvc import prove
	end = time.monotonic() + seconds
	out = {'harness': h.name, 'runs': 0, 'skipped': 0, 'checks': 0, 'distinct': 0, 'failure': None, 'samples': []}
	seen = set()
	def attempt(given, rng, size):
		st = rng.getstate()
		status, v, msg = one(h, given, rng, size)
		if status == 'skip':
			out['skipped'] += 1
			return False
		out['runs'] += 1
		if v is not None:
			out['checks'] += v.checks
			key = repr(v.inputs)[:2000]
			if len(seen) < 200000:
				seen.add(hash(key))
			if len(out['samples']) < 2:
				out['samples'].append(key[:300])
		if status == 'fail':
			inputs = v.inputs if v is not None else record(h, given, st, size)
			try:
				p = prove.enc(inputs)
			except Exception:
				p = None
			out['failure'] = {'message': msg[-3000:], 'inputs': repr(inputs)[:6000], 'pickle': p}
			return True
		return False
	try:
		for name, w in witnesses:
			try:
				given = prove.dec(w)
			except Exception:
				continue
			for k in range(6):
				if attempt(given, random.Random('%s/%s/w%d' % (seed, h.name, k)), h.size):
					out['failure']['from'] = 'counter-model of %s' % name
					return out
		i = 0
		# whole draws from the domains; half of the time a witness fixes some of them
		ws = []
		for name, w in witnesses[:20]:
			try:
				ws.append(prove.dec(w))
			except Exception:
				pass
		while i < runs and time.monotonic() < end:
			rng = random.Random('%s/%s/%d' % (seed, h.name, i))
			given = None
			if ws and i % 2:
				g = rng.choice(ws)
				given = {k: g[k] for k in g if rng.random() < 0.6}
			i += 1
			if attempt(given, rng, h.size if i % 3 else h.size * 3):
				out['failure']['from'] = 'search'
				return out
	finally:
		out['distinct'] = len(seen)
	return out

def _worker(i, req, q):
	from pyvc import api
	h = api.REGISTRY[i]
	signal.signal(signal.SIGALRM, _alarm)
	try:
		resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
	except Exception:
		pass
	try:
		r = search(h, req['witnesses'].get(h.name, []), req['seed'], int(h.runs * req['factor']), min(req['seconds'], h.conc_seconds * max(1.0, req['factor'])))
	except BaseException:
		r = {'harness': h.name, 'runs': 0, 'skipped': 0, 'checks': 0, 'distinct': 0, 'failure': None, 'samples': [], 'error': traceback.format_exc()[-3000:]}
	q.put((i, r))

def main(path, reqfile, outfile):
	from pyvc import prove, api
	prove.load_contracts(path, False)
	with open(reqfile) as f:
		req = json.load(f)
	todo = [i for i, h in enumerate(api.REGISTRY) if not h.internal and (not req.get('only') or h.name in req['only'])]
	mp = multiprocessing.get_context('fork')
	q = mp.Queue()
	running, results = {}, {}
	pending = list(todo)
	hard = req['seconds'] + 60
	while pending or running:
		while pending and len(running) < req.get('jobs', 8):
			i = pending.pop(0)
			p = mp.Process(target=_worker, args=(i, req, q))
			p.start()
			running[i] = (p, time.monotonic())
		try:
			i, r = q.get(timeout=0.3)
			results[i] = r
			running.pop(i)[0].join(5)
		except Exception:
			pass
		for i, (p, t0) in list(running.items()):
			late = time.monotonic() - t0 > hard
			if late or not p.is_alive():
				if not late:
					time.sleep(0.3)
					try:
						j, r = q.get(timeout=0.5)
						results[j] = r
						running.pop(j)[0].join(5)
						continue
					except Exception:
						pass
				p.kill()
				running.pop(i, None)
				h = api.REGISTRY[i]
				results[i] = {'harness': h.name, 'runs': 0, 'skipped': 0, 'checks': 0, 'distinct': 0, 'samples': [],
					'failure': None, 'error': 'worker %s (exit code %s)' % ('timed out' if late else 'died', p.exitcode), 'crashed': not late}
	finds = []
	for f in api.FINDINGS:
		try:
			msg = f['fn']()
		except Exception:
			msg = 'unexpected exception: ' + traceback.format_exc()[-800:]
		finds.append({'id': f['id'], 'property': f['prop'], 'text': f['text'], 'fails': msg or None})
	with open(outfile, 'w') as f:
		json.dump({'results': [results[i] for i in todo], 'findings': finds,
			'harnesses': [{'name': h.name, 'mode': h.mode, 'bound': h.bound, 'functions': h.functions, 'doc': h.doc} for h in api.REGISTRY],
			'trust': api.TRUST, 'c_extension': c_ext()}, f)

def c_ext():
	try:
		import postgresql.port.optimized as o
		return o.__file__
	except Exception as e:
		return 'not loaded: %s' % e

if __name__ == '__main__':
	sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
	from pyvc import conc
	conc.main(*sys.argv[1:4])
