"write MANIFEST.json from the contracts present and the notes below"
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification: weakest-precondition style symbolic execution of the real functions (pyvc), '
	'pre/postconditions and loop invariants discharged by z3 per function, on every run')
TECHC = TECH + '; C port: CBMC function contracts / harness obligations on the real C source'
TECHB = TECH + '; functions out of the prover\'s reach are covered by labelled bounded checks of the same contracts'
# property -> (level, technique, note)
L = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
	if os.path.exists(os.path.join(HERE, 'contracts', p + '.py')) and p in L:
		lv, t, note = L[p]
		checks.append(dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p,
			technique={'P': TECH, 'C': TECHC, 'B': TECHB}[t], level=lv, level_note=note))
	else:
		na.append(dict(property=p, reason=NA.get(p, 'contracts not written yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && gcc --version >/dev/null', checks=checks, not_applicable=na,
	notes='See DESIGN.md. Every check copies /repo to a scratch directory, builds the C port there, generates the obligations from that source and discharges them.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
