import io, itertools, os, re
from pyvc.api import *
from contracts.common import *
from postgresql import configfile as C

VALUES = ['', 'a', 'on', "it's", "'", "''", 'a b', '#', 'a#b', 'x=y', '=', "a'' b", ' lead', 'trail ', '100MB', '"$user",public', '\u00e9', "'q'", '5432', 'A']
KEYS = ['foo', 'bar', 'port', 'my.ext', 'a1', 'Search_Path', 'foo_bar']
PLAIN = [x for x in VALUES if not re.search(r"[\s#']", x)]

def quoted(x):
	return "'" + x.replace("'", "''") + "'"

# a setting: (indentation, commented, key, around =, text of the value, what follows)
def render(e):
	if isinstance(e, str):
		return e
	ind, com, key, eq, val, post = e
	return ind + com + key + eq + val + post

def rand_entry(r):
	k = r.random()
	if k < 0.25:
		return r.choice(['', '# a comment', '   ', '#', '# This has a good = test here', 'include_dir', "just words", '#=', '##', "# foo", 'foo', "a b = c"])
	val = r.choice(VALUES)
	if val in PLAIN and r.random() < 0.6:
		text = val
	else:
		text = quoted(val)
	com = r.choice(['', '', '', '#', '# ', '##', '#\t'])
	if text == '':
		return (r.choice(['', ' ']), com, r.choice(KEYS[:2]), r.choice(['=', ' = ']), '', '')
	return (r.choice(['', '', ' ', '\t ']), com, r.choice(KEYS if r.random() < 0.4 else KEYS[:2]), r.choice(['=', ' = ', ' =', '= ', '\t=\t']), text, r.choice(['', '', ' ', ' # note', '\t#', ' # x = y', " # it's"]))

ENTRIES = Search('entries', lambda r, size: [rand_entry(r) for _ in range(r.randint(0, 6))])
CHANGES = Search('changes', lambda r, size: [(r.choice(KEYS if r.random() < 0.5 else KEYS[:2]), None if r.random() < 0.3 else r.choice(VALUES)) for _ in range(r.randint(1, 3))])

SETTING = re.compile(r"^\s*([A-Za-z_][A-Za-z0-9_.]*)\s*=\s*('(?:[^']|'')*'|[^\s#']*)\s*(?:#.*)?$", re.S)
def setting(line):
	"the setting a line makes, read as the server reads it"
	m = SETTING.match(line)
	if m is None:
		return None
	val = m.group(2)
	if val.startswith("'"):
		val = val[1:-1].replace("''", "'")
	return (m.group(1).lower(), val)

def effective(lines):
	d = {}
	for l in lines:
		s = setting(l)
		if s is not None:
			d[s[0]] = s[1]
	return d

def after(before, changes):
	d = dict(before)
	for k, x in changes.items():
		d.pop(k.lower(), None)
		if x is not None:
			d[k.lower()] = x
	return d

def draw(v):
	es = v.any('entries', ENTRIES)
	cs = dict(v.any('changes', CHANGES))
	v.assume(len(set([k.lower() for k in cs])) == len(cs))
	text = os.linesep.join([render(e) for e in es])
	if es and v.any('last line ends', Bool()):
		text = text + os.linesep
	return es, cs, text

def key_of(e):
	return None if isinstance(e, str) else e[2].lower()

@harness('P20', ['configfile.unquote'])
def quoting(v):
	"a quoted value is read as the text written"
	x = v.any('value', Text())
	v.eq(C.unquote("'" + x.replace("'", "''") + "'"), x, 'the text')

@harness('P20', ['configfile.parse_line', 'configfile.unquote'], mode='sampled', runs=6000, bound='sampled lines')
def lines(v):
	"the key and the value of a line are where they are"
	e = v.any('line', Search('line', lambda r, size: rand_entry(r)))
	v.assume(not isinstance(e, str))
	end = v.any('end', Choice('', '\n', '\r\n'))
	l = render(e) + end
	p = C.parse_line(l)
	v.check(p is not None, 'a setting')
	v.eq(l[p[0]], e[2], 'key')
	v.eq(l[p[1]], e[4], 'text of the value')
	v.eq(p[0].start, len(e[0] + e[1]), 'where the key starts')

@harness('P20', ['configfile.parse_line'], mode='sampled', runs=1, bound="every quoted value of at most 6 characters")
def every_value(v):
	for n in range(7):
		for cs in itertools.product("a'", repeat=n):
			x = ''.join(cs)
			l = 'k=' + quoted(x) + " 'y'"
			p = C.parse_line(l)
			if p is None or C.unquote(l[p[1]]) != x:
				v.eq(p and C.unquote(l[p[1]]), x, 'the value')
	v.check(True, 'the value')

@harness('P20', ['configfile.read_config'], mode='sampled', runs=4000, bound='sampled files')
def reading(v):
	"the uncommented settings, the last of each"
	es, cs, text = draw(v)
	ls = list(io.StringIO(text))
	d = {k.lower(): x for k, x in C.read_config(ls).items()}
	v.eq(d, effective(ls), 'settings')
	some = set([k for k in cs])
	v.eq(C.read_config(ls, selector=some.__contains__), {k: x for k, x in C.read_config(ls).items() if k in some}, 'selected settings')

@harness('P20', ['configfile.alter_config', 'configfile.parse_line'], mode='sampled', runs=12000, bound='sampled files and changes', conc_seconds=30)
def altering(v):
	"the settings asked for are made, all other lines are kept"
	es, cs, text = draw(v)
	src = list(io.StringIO(text))
	out = C.alter_config(cs, iter(src))
	whole = ''.join(out)
	new = list(io.StringIO(whole))
	v.eq(effective(new), after(effective(src), cs), 'settings')
	v.eq({k.lower(): x for k, x in C.read_config(new).items()}, effective(new), 'settings read back')
	low = {k.lower(): k for k in cs}
	have = set([key_of(e) for e in es])
	added = [k for k in cs if cs[k] is not None and k.lower() not in have]
	v.eq(len(new), len(src) + len(added), 'lines')
	for i, (e, l) in enumerate(zip(es, src)):
		o = new[i]
		if i == len(src) - 1 and added and not l.endswith(os.linesep):
			v.check(o.endswith(os.linesep), 'ended before a line is added')
			o = o[:-len(os.linesep)]
		k = key_of(e)
		if k not in low:
			v.eq(o, l, 'a line not asked for')
			continue
		if cs[low[k]] is None:
			v.check(o == l if e[1] else o == '#' + l, 'commented out')
			continue
		if o == l or o == '#' + l:
			continue
		v.eq(setting(o), (k, cs[low[k]]), 'the setting')
		v.check(o.endswith(e[5] + (os.linesep if l.endswith(os.linesep) else '')), 'what follows the value')
		v.check(o.startswith((e[0] if not e[1] else '') + e[2] + e[3]), 'what precedes the value')
	for k in low:
		n = [s for s in map(setting, new) if s and s[0] == k]
		v.eq(len(n), 0 if cs[low[k]] is None else 1, 'set once')
	again = C.alter_config(cs, iter(new))
	v.eq(again, new, 'nothing is left to change')

@harness('P20', ['configfile.alter_config'], mode='sampled', runs=1, bound='every file of at most three lines of one key')
def every_choice(v):
	"one line is left uncommented"
	kinds = ['foo = x\n', '#foo = x\n', 'foo = y # n\n', '# foo = y\n', "foo = 'z'\n", 'bar = 1\n']
	for n in range(4):
		for ls in itertools.product(kinds, repeat=n):
			for x in ('x', 'y', 'w', None):
				out = list(io.StringIO(''.join(C.alter_config({'foo': x}, iter(ls)))))
				want = after(effective(ls), {'foo': x})
				if effective(out) != want or len([s for s in map(setting, out) if s and s[0] == 'foo']) != (x is not None):
					v.eq((ls, x, out), want, 'settings')
	v.check(True, 'settings')

class File(object):
	def __init__(self, text):
		self.text = text
		self.writes = 0
	def open(self, path, mode='r'):
		if 'w' in mode:
			f = self
			self.writes += 1
			class W(io.StringIO):
				def close(w):
					f.text = w.getvalue()
					io.StringIO.close(w)
			f.text = ''
			return W()
		return io.StringIO(self.text)

def rand_ops(r, size):
	ops = []
	for _ in range(r.randint(1, 6)):
		k = r.choice(['foo', 'bar', 'my.ext'])
		op = r.choice(['set', 'set', 'del', 'update', 'with'])
		ops.append((op, k, r.choice(VALUES), r.choice(['foo', 'bar', 'port'])))
	return ops

@harness('P20', ['configfile.ConfigFile'], mode='sampled', runs=3000, bound='sampled histories of at most six edits')
def mapping(v):
	"a configuration file is the mapping of its settings"
	es = v.any('entries', ENTRIES)
	v.assume(not [e for e in es if not isinstance(e, str) and e[2].lower() != e[2]])
	ops = v.any('edits', Search('edits', rand_ops))
	f = File(os.linesep.join([render(e) for e in es]))
	c = C.ConfigFile('p', open=f.open)
	d = effective(list(io.StringIO(f.text)))
	for op, k, x, k2 in ops:
		if op == 'set':
			c[k] = x
			d[k] = x
		elif op == 'del':
			del c[k]
			d.pop(k, None)
		elif op == 'update':
			m = {k: x, k2: None}
			c.update(m)
			d = after(d, m)
		else:
			old = dict(d)
			with c(**{k.replace('.', '_'): x, 'other': 'o'}):
				d[k.replace('.', '_')] = x
				d['other'] = 'o'
				v.eq(dict(c.items()), d, 'settings inside')
				if k2 == 'bar':
					with c(other='p'):
						v.eq(c['other'], 'p', 'innermost setting')
					v.eq(dict(c.items()), d, 'settings inside, again')
			d = old
		v.eq(dict(c.items()), d, 'settings')
		v.eq(sorted(c.keys()), sorted(d), 'keys')
		v.eq(sorted(c), sorted(d), 'iteration')
		v.eq(len(c), len(d), 'length')
		v.eq(sorted(c.values()), sorted(d.values()), 'values')
		for q in (k, k2, 'absent'):
			v.eq(c.get(q, 'none'), d.get(q, 'none'), 'get')
			r = v.outcome(lambda: c[q])
			v.check(r[0] == 'ok' and r[1] == d[q] if q in d else r[0] == 'raise' and isinstance(r[1], KeyError), 'item')
		v.eq(c.getset([k, 'absent']), {k: d.get(k), 'absent': d.get('absent')}, 'getset')
