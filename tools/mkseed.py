"""mkseed.py ID PROP NEEDS BREAKS FILE OLD NEW DEMO.py: plant a bug in a scratch copy, check it counts and keep it.

Replaces OLD by NEW (exactly one occurrence) in /repo/FILE's copy, runs the demonstration
with and without it, the test suite with it, and the property's quick check against it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def plant(id, prop, needs, breaks, edits, demo, check=True, tests=True):
	d = os.path.join(V, 'seeded', id)
	os.makedirs(d, exist_ok=True)
	w = tempfile.mkdtemp(prefix='seed-')
	os.chmod(w, 0o755)
	r = os.path.join(w, 'repo')
	shutil.copytree('/repo', r, symlinks=True)
	for f, old, new in edits:
		p = os.path.join(r, f)
		s = open(p).read()
		assert s.count(old) == 1, (id, f, s.count(old))
		open(p, 'w').write(s.replace(old, new))
	diff = sh('git diff', cwd=r).stdout
	open(os.path.join(d, 'patch.diff'), 'w').write(diff)
	open(os.path.join(d, 'demo.py'), 'w').write(demo)
	open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
	os.chmod(os.path.join(d, 'demo.sh'), 0o755)
	json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
	env = '' 
	if any(f.endswith('.c') for f, o, n in edits):
		b = sh('rm -f postgresql/port/optimized*.so; CFLAGS=-Wno-deprecated-declarations /opt/venv/bin/python setup.py -q build_ext --inplace --force', cwd=r)
		assert b.returncode == 0, b.stdout
	a = sh('bash %s/demo.sh' % d, cwd='/repo')
	b = sh('bash %s/demo.sh' % d, cwd=r)
	print(id, 'demo: unchanged', a.returncode, 'patched', b.returncode)
	if a.returncode: print(a.stdout[-1500:])
	if b.returncode == 0: print(b.stdout[-500:])
	if tests:
		t = sh('%s/tools/testcopy.sh %s %s/t.json' % (V, r, w))
		print('  tests:', t.stdout.strip()[-300:])
	if check:
		c = sh('PYVC_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py %s quick' % (r, prop), cwd=V)
		print('  check rc', c.returncode, [x for x in c.stdout.split('\n') if 'VIOLATION' in x][:2])
	shutil.rmtree(w)
