import sys; sys.path.insert(0,'.')
import importlib, os, shutil
m = importlib.import_module('contracts.%s_c' % sys.argv[1])
shutil.rmtree('/tmp/cs', ignore_errors=True)
n = {}
for r in m.obligations(os.environ.get('PYVC_REPO', '/repo'),'/tmp/cs',len(sys.argv) > 2):
	n[r['status']] = n.get(r['status'], 0) + 1
	if r['status'] != 'discharged' or 'memory' in r['name'] and os.environ.get('V'): print(r['name'], r['status'], r['detail'][:600], round(r['seconds'],1))
print(n)
shutil.rmtree('/tmp/cs', ignore_errors=True)
