from pyvc.api import *
from contracts.common import *
from postgresql.driver import dbapi20 as D
from contracts import sqllex as lexer

# A statement is drawn as segments; its translation is known from them.
QUOTED = ("'%s'", "'a%%b'", '"%(k)s"', "$$%s$$", "$q$ '%s' $q$", "E'\\'%s'", "''", "'it''s 100%'", '"%%"')
PLAIN = ('select ', ' ', ', ', 'x', '(', ')', ' = ', ' 5 ', '\n', '$', ' $1 ', 'é', 's', '::int')
KEYS = ('k', 'a', 'foo', 'k2', 'A b', '')

def draw(v, kind):
	"[(what, text)]: text, quoted, escape, place or key"
	return v.any('segments', Search('segments', lambda r, size: [seg(r, kind) for _ in range(r.randint(0, 10))]))

def seg(r, kind):
	x = r.random()
	if x < 0.35:
		return ('text', r.choice(PLAIN))
	if x < 0.55:
		return ('quoted', r.choice(QUOTED))
	if x < 0.7:
		return ('escape', '%%')
	if kind == 'format':
		return ('place', '%s')
	if kind == 'pyformat':
		return ('key', r.choice(KEYS))
	return ('text', 'y')

def source(segs):
	return ''.join(['%(' + t + ')s' if w == 'key' else t for w, t in segs])

def sound(segs):
	"the segments are the quoted and unquoted parts the server sees"
	flat = ''.join(['\x01' if w == 'quoted' else t for w, t in segs if w != 'key'])
	parts = lexer.lex(source(segs))
	q = [p for p in parts if isinstance(p, tuple)]
	want = [t for w, t in segs if w == 'quoted']
	return len(parts) % 2 == 1 and [p[0] + p[1] + lexer.ends(p[0]) for p in q] == want

def translated(segs):
	"the statement prepared and the keys (or the number) of its parameters"
	keys, n, out = [], 0, []
	given = any([w in ('place', 'key') for w, t in segs])
	for w, t in segs:
		if w == 'place':
			n += 1
			out.append('$' + str(n))
		elif w == 'key':
			if t not in keys:
				keys.append(t)
			out.append('$' + str(keys.index(t) + 1))
		elif w == 'escape':
			out.append('%' if given else '%%')
		else:
			out.append(t)
	return ''.join(out), keys, n

def numbers_apart(segs):
	"no digit directly after a placeholder (it would join its number)"
	for (w, t), (w2, t2) in zip(segs, segs[1:]):
		if w in ('place', 'key') and t2[:1].isdigit():
			return False
	return True

class Chunks(object):
	def __init__(self, rows):
		self.rows = rows
	def count(self):
		return None
	def __next__(self):
		raise StopIteration
class Prepared(object):
	_output, _input = None, ()
	def __init__(self, db, sql):
		self.db, self.sql = db, sql
	def chunks(self, *a):
		self.db.ran.append((self.sql, a))
		return Chunks(a)
	def load_rows(self, rows):
		for r in rows:
			self.db.ran.append((self.sql, tuple(r)))
class DB(object):
	def __init__(self):
		self.ran = []
	def prepare(self, sql):
		return Prepared(self, sql)

@harness('P31', ['driver.dbapi20.Cursor._convert_query', 'driver.dbapi20.percent_parameters', 'driver.dbapi20.Cursor.execute'], mode='sampled', runs=5000, bound='sampled statements')
def positional(v):
	"the n-th placeholder is the n-th parameter; quoted parts stay as they are"
	segs = draw(v, 'format')
	v.assume(sound(segs))
	sql, keys, n = translated(segs)
	c = D.Cursor(DB())
	got, f, k = c._convert_query(source(segs))
	v.eq(got, sql, 'statement')
	v.eq(k, n, 'number of parameters')
	ps = tuple(range(100, 100 + n))
	c.execute(source(segs), ps)
	v.eq(c.database.ran, [(sql, ps)], 'each parameter at its placeholder')
	for bad in (ps + (1,), ps[:-1]):
		if len(bad) != n:
			o, x = v.outcome(D.Cursor(DB()).execute, source(segs), bad)
			v.check(o == 'raise' and type(x) is TypeError, 'another number of parameters is refused')

@harness('P31', ['driver.dbapi20.Cursor._convert_query', 'driver.dbapi20.convert_keywords', 'driver.dbapi20.Cursor.execute'], mode='sampled', runs=5000, bound='sampled statements')
def keyword(v):
	"each keyword has one number, wherever it occurs; its value comes from the mapping"
	segs = draw(v, 'pyformat')
	v.assume(sound(segs))
	sql, keys, n = translated(segs)
	c = D.Cursor(DB())
	got, f, k = c._convert_query(source(segs))
	v.eq(got, sql, 'statement')
	v.eq(k, len(keys), 'number of parameters')
	m = {}
	for x in sorted(keys):
		m[x] = 'value of ' + x
	c.execute(source(segs), m if keys else ())
	v.eq(c.database.ran, [(sql, tuple(['value of ' + x for x in keys]))], 'each value at its placeholder')
	if keys:
		m2 = dict(m)
		del m2[keys[0]]
		m2['some other key'] = 1
		c = D.Cursor(DB())
		o, x = v.outcome(c.execute, source(segs), m2)
		v.check(o == 'raise' and c.database.ran == [], 'a missing value is refused')

@harness('P31', ['driver.dbapi20.Cursor.executemany'], mode='sampled', runs=1500, bound='sampled statements')
def many(v):
	"every parameter set goes to the same statement, in order"
	segs = draw(v, 'pyformat')
	v.assume(sound(segs))
	sql, keys, n = translated(segs)
	v.assume(keys)
	rows = v.any('rows', Int(0, 4))
	sets = [dict([(x, (i, x)) for x in keys]) for i in range(rows)]
	c = D.Cursor(DB())
	c.executemany(source(segs), sets)
	v.eq(c.database.ran, [(sql, tuple([(i, x) for x in keys])) for i in range(rows)], 'each set')

@harness('P31', ['driver.dbapi20.Cursor._convert_query'], mode='sampled', runs=1000, bound='sampled statements')
def mixed(v):
	"keywords and positions together are refused"
	segs = draw(v, 'format') + v.any('more', Search('more', lambda r, size: [seg(r, 'pyformat') for _ in range(r.randint(1, 6))]))
	v.assume(sound(segs))
	ws = [w for w, t in segs]
	v.assume('place' in ws and 'key' in ws)
	o, x = v.outcome(D.Cursor(DB())._convert_query, source(segs))
	v.check(o == 'raise' and type(x) is TypeError, 'refused')

@harness('P31', ['driver.dbapi20.convert_keywords'], mode='bounded', bound='at most 4 keywords')
def values(v):
	"the values in the order of the keys"
	ks = v.any('keys', FixedSeq(Choice('a', 'b', 'c'), range(5)))
	m = {'a': v.any('a', Opt(Int())), 'b': v.any('b', Text()), 'c': v.any('c', Int())}
	v.eq(D.convert_keywords(ks, m), [m[k] for k in ks], 'in order')
	o, x = v.outcome(D.convert_keywords, list(ks) + ['d'], m)
	v.check(o == 'raise' and type(x) is KeyError, 'a missing key is refused')
