#!/usr/bin/env python3
"""
check.py PROPERTY -- decide one property on /repo's current working tree.

Exit 0: every obligation was discharged, or nothing refutes those that were not
(they are printed and recorded as UNDECIDED).  Exit 1 with a VIOLATION line: an
obligation is refuted (counter-model replayed on the real code, or a failing
input found), or a contract fails on a concrete execution.
"""
import sys, os, json, time, subprocess, shutil, tempfile, sysconfig, importlib.util, pickle, base64, threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
PY = '/usr/local/bin/python3-vt'
for cand in ('/usr/local/bin/python3-vt', '/usr/bin/python3-vt', '/opt/veriftools/pyvenv/bin/python'):
	if os.path.exists(cand):
		PY = cand
		break
else:
	PY = shutil.which('python3-vt') or 'python3-vt'

def build(scratch):
	"copy of the package under test with a freshly compiled C extension"
	dst = os.path.join(scratch, 'postgresql')
	shutil.copytree(os.path.join(REPO, 'postgresql'), dst,
		ignore=lambda d, names: [n for n in names if n.endswith(('.so', '.pyc')) or n in ('__pycache__', 'test', 'documentation')])
	src = os.path.join(dst, 'port', '_optimized')
	inc = sysconfig.get_paths()['include']
	out = os.path.join(dst, 'port', 'optimized' + sysconfig.get_config_var('EXT_SUFFIX'))
	note = ''
	if os.path.exists(os.path.join(src, 'module.c')):
		p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + inc, '-I' + src, os.path.join(src, 'module.c'), '-o', out],
			stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
		if p.returncode:
			note = p.stdout[-2000:]
	return note

def env(path):
	e = dict(os.environ)
	e['PYTHONPATH'] = path
	e['PYTHONHASHSEED'] = '0'
	e['PYTHONDONTWRITEBYTECODE'] = '1'
	e['PYVC_REPO'] = REPO
	e.pop('PYVC_DEBUG', None)
	for k in list(e):
		if k.startswith('PG'):
			del e[k]
	return e

def run(cmd, e, timeout, log, cwd):
	with open(log, 'w') as f:
		p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
		try:
			return p.wait(timeout)
		except subprocess.TimeoutExpired:
			try:
				os.killpg(p.pid, 9)
			except OSError:
				pass
			p.wait()
			return -9

def tail(path, n=3000):
	try:
		with open(path, errors='replace') as f:
			return f.read()[-n:]
	except OSError:
		return ''

def main():
	t0 = time.monotonic()
	prop = sys.argv[1]
	tier = os.environ.get('VERIF_TIER', 'quick')
	if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
		tier = sys.argv[2]
	seed = int(os.environ.get('VERIF_SEED', '1') or 1)
	thorough = tier == 'thorough'
	contracts = os.path.join(HERE, 'contracts', prop + '.py')
	scratch = tempfile.mkdtemp(prefix='pyvc-%s-' % prop)
	outdir = os.path.join(HERE, 'evidence', 'replay')
	os.makedirs(outdir, exist_ok=True)
	try:
		code = decide(prop, tier, seed, thorough, contracts, scratch, outdir, t0)
	finally:
		shutil.rmtree(scratch, ignore_errors=True)
	sys.exit(code)

def conc(contracts, scratch, req, name, timeout):
	rq, rs, log = [os.path.join(scratch, name + x) for x in ('.req', '.res', '.log')]
	with open(rq, 'w') as f:
		json.dump(req, f)
	work = os.path.join(scratch, 'cwd-' + name)
	os.makedirs(work, exist_ok=True)
	e = env(scratch)
	e['TMPDIR'] = work
	e['HOME'] = work
	rc = run([PY, os.path.join(HERE, 'pyvc', 'conc.py'), contracts, rq, rs], e, timeout, log, work)
	if rc != 0 or not os.path.exists(rs):
		return None, 'exit %s: %s' % (rc, tail(log))
	with open(rs) as f:
		return json.load(f), ''

def decide(prop, tier, seed, thorough, contracts, scratch, outdir, t0):
	cerr = build(scratch)
	if cerr:
		print('the C extension does not compile:', cerr[-400:])
	# 1. obligations of the Python code, and of the C code, in parallel with 2.
	pj, plog = os.path.join(scratch, 'proof.json'), os.path.join(scratch, 'proof.log')
	box = {}
	def proof():
		e = env('')
		e['PYVC_JSON'] = pj
		e['PYVC_SOLVER_MS'] = '30000' if thorough else '8000'
		work = os.path.join(scratch, 'cwd-proof'); os.makedirs(work, exist_ok=True)
		e['TMPDIR'] = work
		e['HOME'] = work
		e['PYVC_JOBS'] = '8'
		box['rc'] = run([PY, os.path.join(HERE, 'pyvc', 'prove.py'), contracts], e, 640, plog, work)
	def extra():
		p = contracts[:-3] + '_c.py'
		box['extra'] = []
		if os.path.exists(p):
			try:
				spec = importlib.util.spec_from_file_location('extra_' + prop, p)
				m = importlib.util.module_from_spec(spec)
				sys.path.insert(0, HERE)
				spec.loader.exec_module(m)
				box['extra'] = m.obligations(REPO, scratch, thorough)
				box['extra_trust'] = getattr(m, 'TRUST', [])
			except Exception as e:
				import traceback
				box['extra_error'] = traceback.format_exc()[-3000:]
	ths = [threading.Thread(target=proof), threading.Thread(target=extra)]
	for t in ths: t.start()
	req = dict(seed=seed, witnesses={}, factor=6.0 if thorough else 1.0, seconds=400 if thorough else 60, jobs=4)
	base, err = conc(contracts, scratch, req, 'base', 560)
	for t in ths: t.join()
	res = None
	if os.path.exists(pj):
		with open(pj) as f:
			res = json.load(f)
	violations, undecided, notes = [], [], []
	proofs = res['results'] if res else []
	if res is None:
		undecided.append(('engine', 'the proof run gave no result (exit %s): %s' % (box.get('rc'), tail(plog, 1200))))
	byconc = {}
	if base is None:
		undecided.append(('concrete', err[-1500:]))
	else:
		for r in base['results']:
			byconc[r['harness']] = r
	# 2. concrete failures
	def violation(h, kind, message, inputs=None, pick=None, obligation=None, extra=None, nofail=False):
		path = os.path.join(outdir, '%s-%s.json' % (prop, h))
		with open(path, 'w') as f:
			json.dump({'property': prop, 'harness': h, 'obligation': obligation, 'kind': kind, 'message': message,
				'inputs': inputs, 'pickle': pick, 'details': extra,
				'replay': 'python3 %s/replay.py %s' % (HERE, path)}, f, indent=1)
		violations.append((h, path, nofail, obligation or message.strip().splitlines()[-1][:200] if message.strip() else kind))
	failing = set()
	def concrete_fail(r, obligation=None):
		if r['harness'] in failing:
			return
		failing.add(r['harness'])
		fl = r['failure']
		violation(r['harness'], 'failing input (%s)' % fl.get('from'), fl['message'], fl['inputs'], fl['pickle'], obligation)
	for r in byconc.values():
		if r['failure']:
			concrete_fail(r)
		elif r.get('crashed'):
			failing.add(r['harness'])
			violation(r['harness'], 'crash', 'the interpreter died: ' + str(r.get('error')), None, None, None)
		elif r.get('error'):
			undecided.append((r['harness'], 'concrete run: ' + r['error'][-600:]))
	# 3. undischarged obligations: replay the counter-models, search deeper
	pend = {}
	for r in proofs:
		bad = [f for f in r['failures'] if not f['name'].startswith('loop ') and not r.get('internal')]
		r['bad'] = bad + [f for f in r.get('unrolled_failures', [])]
		if (r['failures'] or r['unsupported'] or r['degraded']) and r['harness'] not in failing:
			pend[r['harness']] = r
	if pend:
		req = dict(seed=seed + 1000, witnesses={h: r['witnesses'] for h, r in pend.items()}, only=sorted(pend),
			factor=20.0, seconds=max(20, min(120, 800 - (time.monotonic() - t0))), jobs=8)
		deep, err = conc(contracts, scratch, req, 'deep', 200)
		if deep is None:
			undecided.append(('concrete', err[-600:]))
		else:
			for r in deep['results']:
				b = byconc.get(r['harness'])
				if b:
					b['runs'] += r['runs']; b['checks'] += r['checks']; b['distinct'] += r['distinct']
				if r['failure']:
					names = [f['name'] for f in pend[r['harness']]['bad']] or [f['name'] for f in pend[r['harness']]['failures']] 
					concrete_fail(r, names[0] if names else None)
				elif r.get('crashed'):
					failing.add(r['harness'])
					violation(r['harness'], 'crash', 'the interpreter died: ' + str(r.get('error')))
	for h, r in pend.items():
		if h in failing:
			continue
		refuted = [f for f in r['bad'] if f['status'] == 'failed' and not f.get('opaque') and f['backend'] != 'engine']
		if refuted and r['mode'] == 'proof' or (refuted and r['mode'] == 'bounded'):
			f = refuted[0]
			violation(h, 'refuted obligation', 'obligation %s of %s is refuted by %s' % (f['name'], ', '.join(r['functions']), f['backend']),
				obligation=f['name'], extra=f['detail'], nofail=True)
		else:
			why = '; '.join(sorted(set([f['name'] + ' ' + f['status'] for f in r['failures']] + r['unsupported'] + r['degraded'])))
			undecided.append((h, why[:500]))
	# C obligations
	cobs = box.get('extra', [])
	if box.get('extra_error'):
		undecided.append(('C obligations', box['extra_error'][-800:]))
	for o in cobs:
		if o['status'] == 'failed':
			violation(o['name'].replace('/', '_').replace(' ', '_'), 'refuted obligation (%s)' % o['backend'], o['detail'][-3000:], obligation=o['name'],
				inputs=o.get('inputs'), nofail=not o.get('replayed'))
		elif o['status'] != 'discharged':
			undecided.append((o['name'], o['detail'][-400:]))
	# 4. known findings
	try:
		with open(os.path.join(HERE, 'known_findings.json')) as f:
			known = {k['id']: k for k in json.load(f)['findings'] if k.get('status') == 'known'}
	except OSError:
		known = {}
	for fi in (base or {}).get('findings', []):
		if fi['fails']:
			if fi['id'] in known:
				print('KNOWN-FINDING: property=%s %s: %s' % (prop, fi['id'], known[fi['id']]['what'][:200]))
			else:
				violation('finding-' + fi['id'], 'defect', fi['text'] + ': ' + str(fi['fails']))
	# 5. evidence
	nob = sum(r['obligations'] for r in proofs) + len(cobs)
	ndis = sum(r['discharged'] for r in proofs) + sum(o['status'] == 'discharged' for o in cobs)
	runs = sum(r['runs'] for r in byconc.values())
	if not nob and not runs:
		print('no obligation and no execution: the check is broken')
		print(tail(plog, 2000)); print(err)
		return 2
	backends = {}
	for r in proofs:
		for d in r['named'].values():
			for b, n in d['backend'].items():
				backends[b] = backends.get(b, 0) + n
	for o in cobs:
		backends[o['backend']] = backends.get(o['backend'], 0) + 1
	table = []
	for r in proofs:
		ok = r['obligations'] and r['obligations'] == r['discharged'] and not r['unsupported'] and not r['failures'] and not r['degraded'] and r['completed']
		table.append({'contract': r['harness'], 'functions': r['functions'],
			'status': ('proved' if r['mode'] == 'proof' else 'bounded, no violation') if ok else 'undecided' if r['harness'] not in failing else 'violated',
			'bound': r['bound'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'paths': r['paths'], 'completed_paths': r['completed'],
			'postconditions': {n: '%d/%d' % (d['discharged'], d['n']) for n, d in sorted(r['named'].items())},
			'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'undischarged': [f['name'] for f in r['failures']] + r['unsupported'] + r['degraded']})
	for h in (base or {}).get('harnesses', []):
		if h['mode'] == 'sampled':
			table.append({'contract': h['name'], 'functions': h['functions'], 'status': 'executed only, ' + ('violated' if h['name'] in failing else 'no violation'), 'bound': h['bound'],
				'executions': byconc.get(h['name'], {}).get('runs', 0)})
	for o in cobs:
		table.append({'contract': o['name'], 'functions': o.get('functions', []), 'status': o['status'], 'bound': o.get('bound'), 'back_end': o['backend'], 'seconds': round(o['seconds'], 2)})
	level = level_of(prop)
	proved = [t for t in table if t['status'] in ('proved', 'discharged') and not t.get('bound')]
	samples = []
	for r in list(byconc.values())[:6]:
		samples.extend(r['samples'][:1])
	ev = {
		'property': prop, 'tier': tier, 'seed': seed, 'level': level,
		'coverage': {
			'obligations': nob, 'discharged': ndis,
			'checker_cmd': 'python3 check.py %s %s' % (prop, tier),
			'trusted_base': TRUSTED + sorted(set((res or {}).get('trust', []) + box.get('extra_trust', []))),
			'back_ends': backends,
			'solver_s': round(sum(r['solver_s'] for r in proofs) + sum(o['seconds'] for o in cobs), 2),
			'contracts': table,
			'contracts_proved_unbounded': len(proved),
			'functions_under_contract': sorted(set(f for r in proofs for f in r['functions']) | set(f for o in cobs for f in o.get('functions', []))),
			'loop_contracts': (res or {}).get('loops', []),
			'evaluations': runs,
			'distinct_nontrivial': sum(r['distinct'] for r in byconc.values()),
			'rule': 'every contract is also executed on the native code (C extension compiled from the tree) with inputs drawn from its domains; distinct by input; runs whose precondition failed are not counted',
			'postconditions_evaluated': sum(r['checks'] for r in byconc.values()),
			'samples': samples or ['none'],
			'sources_sha256': (res or {}).get('sources', {}),
			'undecided': ['%s: %s' % u for u in undecided],
		},
		'assumptions': sorted(set((res or {}).get('trust', []) + box.get('extra_trust', []))),
		'wall_s': round(time.monotonic() - t0, 2), 'violations': len(violations),
	}
	with open(os.path.join(HERE, 'evidence', prop + ('.json' if REPO == '/repo' else '.other.json')), 'w') as f:
		json.dump(ev, f, indent=1)
	print('%s: %d/%d obligations discharged (%d contracts proved for all inputs), %d concrete executions, %.1f s' % (
		prop, ndis, nob, len(proved), runs, time.monotonic() - t0))
	for h, why in undecided:
		print('UNDECIDED %s: %s' % (h, why))
	for h, path, nofail, what in violations:
		print('  %s: %s' % (h, what))
		print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if nofail else ''))
	return 1 if violations else 0

TRUSTED = [
	'CPython 3.12 (it executes the instrumented functions; instrumentation is mechanical, pyvc/transform.py)',
	'z3 5 (cvc5 1.1 as second back end)',
	'pyvc models of the builtins and standard-library functions (pyvc/models.py, stdmodels.py), cross-checked by executing every contract natively',
]

def level_of(prop):
	try:
		with open(os.path.join(HERE, 'MANIFEST.json')) as f:
			for c in json.load(f)['checks']:
				if c['property'] == prop:
					return c['level']
	except (OSError, ValueError):
		pass
	return 'proof'

if __name__ == '__main__':
	main()
