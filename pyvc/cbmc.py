"""
pyvc.cbmc -- obligations of the C port, discharged by CBMC on the real source.

The text verified is module.c up to its method table (it includes the other
files), with the CPython API replaced by the assumed contracts in cstub/Python.h.
The module initialisation is the only part dropped.
"""
import os, json, subprocess, time, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def extract(repo, scratch):
	src = os.path.join(repo, 'postgresql', 'port', '_optimized')
	dst = os.path.join(scratch, 'cbmc')
	if not os.path.isdir(dst):
		shutil.copytree(src, dst)
		with open(os.path.join(src, 'module.c')) as f:
			lines = f.read().split('\n')
		cut = [i for i, l in enumerate(lines) if l.startswith('#define mFUNC')][0]
		with open(os.path.join(dst, 'extracted.c'), 'w') as f:
			f.write('#line 1 "module.c"\n' + '\n'.join(lines[:cut]) + '\n')
		for n in ('Python.h', 'structmember.h'):
			shutil.copy(os.path.join(HERE, 'cstub', n), dst)
	return dst

def verify(repo, scratch, harness, function, functions, unwind=None, bound=None, timeout=300, flags=(), checks=True, unwindset=None):
	"run one harness function; -> records for check.py"
	d = extract(repo, scratch)
	t0 = time.monotonic()
	cmd = ['cbmc', '-I', d, os.path.join(HERE, 'cstub', harness), '-DEXTRACTED="%s/extracted.c"' % d, '--function', function, '--json-ui', '--no-malloc-may-fail',
		'--bounds-check', '--pointer-check', '--div-by-zero-check', '--no-undefined-shift-check', '--no-signed-overflow-check']
	if unwind:
		cmd += ['--unwind', str(unwind), '--unwinding-assertions']
	if unwindset:
		cmd += ['--unwindset', unwindset]
	cmd += list(flags)
	def rec(name, status, detail, inputs=None, n=1):
		return dict(name='%s: %s' % (function, name), status=status, backend='CBMC 6.11', seconds=0.0, detail=detail, functions=functions, bound=bound, inputs=inputs, replayed=False)
	try:
		# comparing a pointer beyond the object's end with that end is common C and reads nothing
		q = subprocess.run([x for x in cmd if x != '--json-ui'] + ['--show-properties', '--json-ui'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
		ps = [r for m in json.loads(q.stdout) for r in m.get('properties', [])]
		keep = [r['name'] for r in ps if not ('.pointer_arithmetic.' in r['name'] and r['description'].startswith('pointer relation'))]
		if len(keep) < len(ps):
			for n in keep:
				cmd += ['--property', n]
		p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
		out = json.loads(p.stdout)
	except subprocess.TimeoutExpired:
		return [rec('verification', 'unknown', 'CBMC: no answer within %d s' % timeout)]
	except ValueError:
		return [rec('verification', 'unknown', 'CBMC output: ' + p.stdout[-1500:])]
	res = None
	msgs = []
	for m in out:
		if 'result' in m:
			res = m['result']
		if m.get('messageType') == 'ERROR':
			msgs.append(m.get('messageText', ''))
	if not res:
		return [rec('verification', 'unknown', 'CBMC gave no result: ' + ' '.join(msgs)[-1500:])]
	groups = {}
	for r in res:
		fn = r['property'].split('.')[0]
		if fn.startswith('h_') and fn != function:
			continue
		u = '.assertion.' in r['property']
		k = r['description'] if u else 'unwinding bound' if '.unwind' in r['property'] else 'unspecified callee' if '.no-body' in r['property'] else 'memory safety'
		groups.setdefault(k, []).append(r)
	nobody = [r for r in res if '.no-body' in r['property'] and r['status'] == 'FAILURE']
	if nobody:
		# without a contract for a callee nothing can be concluded
		return [rec('specification', 'unknown', 'the code calls %s, for which cstub/Python.h has no contract' % nobody[0]['description'])]
	recs = []
	dt = time.monotonic() - t0
	for k, rs in sorted(groups.items()):
		bad = [r for r in rs if r['status'] == 'FAILURE']
		unk = [r for r in rs if r['status'] not in ('FAILURE', 'SUCCESS')]
		if bad and k in ('unwinding bound', 'unspecified callee'):
			recs.append(rec(k, 'unknown', '%s: %s' % (k, bad[0]['description'])))
		elif bad:
			b = bad[0]
			inp = {}
			for s in b.get('trace', []):
				if s.get('stepType') == 'assignment' and s.get('sourceLocation', {}).get('function') in (function, 'any_bytes', 'any_int') and not s.get('hidden'):
					inp[s.get('lhs')] = s.get('value', {}).get('data')
			recs.append(rec(k, 'failed', '%s: %s at %s:%s; trace assignments: %s' % (b['property'], b['description'],
				b.get('sourceLocation', {}).get('file'), b.get('sourceLocation', {}).get('line'), json.dumps(inp)[:2500]), inputs=json.dumps(inp)[:3000]))
		elif unk:
			recs.append(rec(k, 'unknown', 'CBMC: ' + unk[0]['status']))
		else:
			recs.append(rec('%s (%d checks)' % (k, len(rs)), 'discharged', ''))
	if recs:
		recs[0]['seconds'] = dt
	return recs

def parallel(jobs):
	from concurrent.futures import ThreadPoolExecutor
	if jobs:
		extract(jobs[0]['repo'], jobs[0]['scratch'])
	with ThreadPoolExecutor(4) as ex:
		return [r for rs in ex.map(lambda j: verify(**j), jobs) for r in rs]

TRUST = ['CBMC 6.11; the CPython API as specified in cstub/Python.h (objects never freed, allocation succeeds); little-endian LP64']
