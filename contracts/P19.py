import io, itertools, os, tempfile
from pyvc.api import *
from contracts.common import *
from pyvc.gen import G
from postgresql import pgpassfile as P

VAL = Text(alphabet='*ab:\\ ')

def matches(entry, host, port, database, user):
	"every field is the value asked for, or a bare asterisk"
	w, (h, p, d, u) = entry
	for f, x in ((h, host), (p, port), (d, database), (u, user)):
		if not (f == '*' or f == x):
			return False
	return True

class Entry(G):
	"an entry that does not match what is asked for"
	def __init__(self, asked):
		self.asked = asked
		self.g = Tup(VAL, Tup(VAL, VAL, VAL, VAL))
	def sym(self, name):
		from pyvc import core, sym
		e = self.g.sym(name)
		k = core.ctx().choose(4)
		core.ctx().assume(sym.B(e[1][k] != '*'))
		core.ctx().assume(sym.B(e[1][k] != self.asked[k]))
		return e
	def rand(self, r, size):
		while True:
			e = (VAL.rand(r, 2), tuple([r.choice(['*', x, x, VAL.rand(r, 2)]) for x in self.asked]))
			if not matches(e, *self.asked):
				return e
	def ok(self, x):
		return self.g.ok(x) and not matches(x, *self.asked)

class Match(G):
	"an entry whose fields are the values asked for, or bare asterisks"
	def __init__(self, asked):
		self.asked = asked
		self.g = Tup(VAL, Tup(VAL, VAL, VAL, VAL))
	def sym(self, name):
		from pyvc import core
		return (VAL.sym(name), tuple(['*' if core.ctx().choose(2) else x for x in self.asked]))
	def rand(self, r, size):
		return (VAL.rand(r, size), tuple([r.choice(['*', x]) for x in self.asked]))
	def ok(self, e):
		return self.g.ok(e) and matches(e, *self.asked)

def ask(v):
	return tuple([v.any(n, VAL) for n in ('host', 'port', 'database', 'user')])

@harness('P19', ['pgpassfile.lookup_password'], paths=20000)
def first(v):
	"the password of the first entry that matches"
	host, port, database, user = a = ask(v)
	before = v.any('before', Seq(Entry(a)))
	match = v.any('match', Seq(Match(a), minlen=1, maxlen=1))
	after = v.any('after', Seq(Tup(VAL, Tup(VAL, VAL, VAL, VAL))))
	v.ghost(before=before)
	r = P.lookup_password(list(before) + list(match) + list(after), (user, host, port, database))
	v.eq(r, match[0][0], 'password')

@harness('P19', ['pgpassfile.lookup_password'])
def none(v):
	"nothing if there is no such entry"
	host, port, database, user = a = ask(v)
	before = v.any('entries', Seq(Entry(a)))
	v.ghost(before=before)
	v.eq(P.lookup_password(before, (user, host, port, database)), None, 'no password')

@harness('P19', ['pgpassfile.split'])
def plain(v):
	"five fields without escapes"
	f = [v.any('field %d' % i, Text(free=':\\\r\n')) for i in range(5)]
	v.assume(f[0][:1] != '#' and f[0][:1].strip() == f[0][:1] and f[0] != '')
	nl = v.any('end', Choice('', '\n', '\r\n'))
	v.eq(P.split(':'.join(f) + nl), f, 'fields')

@harness('P19', ['pgpassfile.split'], mode='bounded', bound='at most 7 fields')
def malformed(v):
	"any other number of fields is no entry"
	n = v.any('fields', Choice(1, 2, 3, 4, 6, 7))
	f = [v.any('field %d' % i, Text(free=':\\\r\n \t#\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')) for i in range(n)]
	v.check(P.split('x' + ':'.join(f) + '\n') is None, 'no entry')

# ---- files
def escape(x):
	return ''.join(['\\' + c if c in ':\\' else c for c in x])

FIELD = Search(Text(free='\r\n'), lambda r, size: ''.join([r.choice(['a', 'b', ':', '\\', '\\\\', '*', ' ', '\u00e9', '#', '9']) for _ in range(r.randint(0, 4))]))
def line_of(e):
	return ':'.join([escape(x) for x in e[1] + (e[0],)])
def entry_ok(e):
	h = e[1][0]
	return h[:1] != '#' and h.lstrip() == h and (h or e[1][1] is not None)

@harness('P19', ['pgpassfile.split'], mode='sampled', runs=6000, bound='sampled fields')
def escapes(v):
	"escaped colons and backslashes are restored"
	f = [v.any('field %d' % i, FIELD) for i in range(5)]
	v.assume(entry_ok((f[4], tuple(f[:4]))))
	nl = v.any('end', Choice('', '\n', '\r\n'))
	v.eq(P.split(':'.join([escape(x) for x in f]) + nl), f, 'fields')

@harness('P19', ['pgpassfile.split'], mode='sampled', runs=1, bound='every five fields of at most 3 characters in one of them')
def every_escape(v):
	for n in range(5):
		for k in range(5):
			for cs in itertools.product('a:\\', repeat=k):
				f = ['x', 'y', 'z', 'u', 'w']
				f[n] = ''.join(cs)
				if P.split(':'.join([escape(x) for x in f])) != f:
					v.eq(P.split(':'.join([escape(x) for x in f])), f, 'fields')
	v.check(True, 'fields')

def draw_file(v):
	es = v.any('entries', Search('entries', lambda r, size: [rand_item(r) for _ in range(r.randint(0, 6))]))
	return es
def rand_item(r):
	k = r.random()
	if k < 0.15:
		return '#' + r.choice(['', ' comment', '*:*:*:*:no', ' h:1:d:u:pw'])
	if k < 0.25:
		return r.choice(['', '   ', '\t'])
	if k < 0.35:
		return ':'.join([r.choice(['*', 'h', 'a']) for _ in range(r.choice([1, 2, 3, 4, 6, 7]))])
	return (FIELD.rand(r, 4), tuple([r.choice(['*', 'h', 'a', 'b:', '\\', FIELD.rand(r, 3)]) for _ in range(4)]))

@harness('P19', ['pgpassfile.parse', 'pgpassfile.lookup_password', 'pgpassfile.lookup_password_file', 'pgpassfile.lookup_pgpass'], mode='sampled', runs=3000, bound='sampled files')
def files(v):
	"the first matching line of a file"
	es = draw_file(v)
	for e in es:
		if isinstance(e, tuple):
			v.assume(entry_ok(e))
	text = ''.join([(e if isinstance(e, str) else line_of(e)) + '\n' for e in es])
	entries = [e for e in es if isinstance(e, tuple)]
	v.eq(P.parse(io.StringIO(text)), [(e[0], list(e[1])) for e in entries], 'entries')
	asked = v.any('asked', Search('asked', lambda r, size: tuple([r.choice(['h', 'a', 'b:', '\\', '*', '#', 'h:']) for _ in range(4)])))
	ask = asked
	if entries and v.any('hit', Bool()):
		e = entries[v.any('which', Int(0, 5)) % len(entries)]
		ask = tuple([a if f == '*' else f for a, f in zip(asked, e[1])])
	host, port, database, user = ask
	want = None
	for e in entries:
		if matches(e, host, port, database, user):
			want = e[0]
			break
	v.eq(P.lookup_password(P.parse(io.StringIO(text)), (user, host, port, database)), want, 'password')
	with tempfile.TemporaryDirectory() as d:
		p = os.path.join(d, 'pgpass')
		with open(p, 'w', encoding='utf-8', newline='') as f:
			f.write(text)
		v.eq(P.lookup_password_file(p, (user, host, port, database)), want, 'password in the file')
		v.eq(P.lookup_pgpass(dict(user=user, host=host, port=port, database=database), p), want, 'password')
		v.check(P.lookup_pgpass(dict(user=user, host=host, port=port, database=database), p + 'x') is None, 'no file')
		if not [e for e in entries if False]:
			d2 = dict(user=user, host=host, port=port)
			w2 = None
			for e in entries:
				if matches(e, host, port, user, user):
					w2 = e[0]
					break
			v.eq(P.lookup_pgpass(d2, p), w2, 'without a database it is named like the user')
