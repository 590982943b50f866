#!/usr/bin/env python3
"replay.py FILE -- run the failing input of a violation against /repo's current tree"
import sys, os, json, tempfile, shutil, subprocess
import check

def main():
	with open(sys.argv[1]) as f:
		r = json.load(f)
	if not r.get('pickle'):
		print(json.dumps(r, indent=1)); return
	scratch = tempfile.mkdtemp(prefix='pyvc-replay-')
	try:
		check.build(scratch)
		code = '''
import sys
sys.path.insert(0, %r)
from pyvc import prove, api
prove.load_contracts(%r, False)
h = [h for h in api.REGISTRY if h.name == %r][0]
given = prove.dec(%r)
print('inputs:', given)
print(api.run_concrete(h, given)[::2])
''' % (check.HERE, os.path.join(check.HERE, 'contracts', r['property'] + '.py'), r['harness'], r['pickle'])
		subprocess.run([check.PY, '-c', code], env=check.env(scratch), cwd=scratch)
	finally:
		shutil.rmtree(scratch, ignore_errors=True)
if __name__ == '__main__':
	main()
