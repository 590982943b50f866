"""
mkdesign.py: writes DESIGN.md from the text below, the contracts files, the
evidence of the last runs (functions, status, bounds), seeded/ and
known_findings.json.
"""
import json, os, re, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
NOTES = {}
k = None
for l in open(os.path.join(HERE, 'tools', 'design_notes.md')):
	m = re.match(r'^## (P\d\d)', l)
	if m:
		k = m.group(1)
		NOTES[k] = ''
	elif k:
		NOTES[k] += l
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
levels = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
out = [HEAD, '\n# 3. The properties\n\n']
for p in props:
	i = p['id']
	out.append('## %s %s\n\n' % (i, p['title']))
	c = levels.get(i)
	if c:
		out.append('Level: **%s** — %s.\n\n' % (c['level'], c.get('level_note', '')))
	out.append(NOTES.get(i, '').strip() + '\n\n')
	try:
		e = json.load(open(os.path.join(HERE, 'evidence', i + '.json')))
	except OSError:
		continue
	rows = []
	many = {}
	for x in e['coverage'].get('contracts', []):
		fs = ', '.join('`%s`' % f for f in x['functions'])
		st = x['status']
		if x.get('bound'):
			st += ' (%s)' % x['bound'] if 'bound' not in st else ' ' + x['bound']
		many.setdefault((fs, st), []).append(x['contract'])
	for (fs, st), names in many.items():
		n = ', '.join(names) if len(names) < 4 else '%s … %s (%d)' % (names[0], names[-1], len(names))
		rows.append('| %s | %s | %s |' % (n, fs if len(fs) < 400 else fs[:380].rsplit(',', 1)[0] + ', …', st.replace('|', '/')))
	if len(rows) > 40:
		rows = rows[:40] + ['| … | %d more of the same kinds | |' % (len(rows) - 40)]
	out.append('| contract | functions | status |\n|---|---|---|\n' + '\n'.join(rows) + '\n\n')
	t = e['coverage'].get('trusted_base') or []
	extra = [x for x in e.get('assumptions', [])]
	if extra:
		out.append('Assumed here: ' + '; '.join(extra) + '.\n\n')
out.append('\n# 4. Seeded bugs and the checks that catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n')
try:
	caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
except OSError:
	caught = {}
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
	m = json.load(open(os.path.join(d, 'meta.json')))
	n = os.path.basename(d)
	out.append('| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'], caught.get(n, '')))
out.append('\n# 5. Defects found\n\n')
for f in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
	out.append('- %s\n' % (f.get('line') or '%s (known finding, %s): %s' % (f['id'], f['property'], f.get('what') or f.get('text') or '')))
out.append('\n' + TAIL)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
print(len(''.join(out)), 'characters')
