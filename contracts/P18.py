import itertools
from pyvc.api import *
from contracts.common import *
from pyvc.sym import char_map, preimage
from postgresql import iri as I
from postgresql.resolved import riparse as R

# ---- the five parts of an indicator
SCHEME = Choice(None, 'pq', 'postgres', 'POSTGRESQL', 'x-1.+')
NETLOC = Opt(Text(free='/?#', minlen=1, alphabet='ab:@%[] 1'))
PATH = Opt(Text(free='?#', alphabet='ab/:@%,='))
QUERY = Opt(Text(free='#', alphabet='ab/?:@%&='))
FRAG = Opt(Text(alphabet='ab/?#:@%,'))

def parts(v, scheme=SCHEME):
	return (v.any('scheme', scheme), v.any('netloc', NETLOC), v.any('path', PATH), v.any('query', QUERY), v.any('fragment', FRAG))

def text(p):
	s = ''
	if p[0] is not None:
		s = s + p[0] + '://'
	if p[1] is not None:
		s = s + p[1]
	if p[2] is not None:
		s = s + '/' + p[2]
	if p[3] is not None:
		s = s + '?' + p[3]
	if p[4] is not None:
		s = s + '#' + p[4]
	return s

@harness('P18', ['resolved.riparse.unsplit'])
def joining(v):
	p = parts(v)
	v.eq(R.unsplit(p), text(p), 'the parts with their markers')

@harness('P18', ['resolved.riparse.split', 'resolved.riparse.unsplit'], mode='sampled', runs=8000, bound='sampled parts')
def splitting(v):
	"no part receives text of another"
	p = parts(v)
	v.assume(p[0] is not None or '://' not in text(p))
	v.eq(R.split(R.unsplit(p)), p, 'the parts')

@harness('P18', ['resolved.riparse.split'])
def splitting_all(v):
	"for all parts of an indicator with a scheme"
	p = parts(v, Choice('pq', 'postgresql', 'x-1.+'))
	v.eq(R.split(text(p)), p, 'the parts')

@harness('P18', ['resolved.riparse.split', 'resolved.riparse.unsplit'], mode='sampled', runs=8000, bound='sampled texts')
def any_text(v):
	s = v.any('text', Text(alphabet='ab:/?#@%:/', maxlen=24))
	v.eq(R.unsplit(R.split(s)), s, 'splitting loses nothing')

# ---- one component, escaped and back
TOK = [chr(c) for c in range(33)] + list('%%%:@/?#&=,[]') + ['%2', '%2f', '%2F', '%25', '%g0', 'ab', '\x7f', '\u00e9', '\u20ac', '0', 'F', '*', '.', '\\', '\\1', "'", '"']
class Comp(Text):
	def __init__(self, without='', minlen=0, size=6):
		Text.__init__(self)
		self.tok = [t for t in TOK if not set(t) & set(without)]
		self.least, self.size = minlen, size
	def rand(self, r, size):
		while True:
			s = ''.join([r.choice(self.tok) for _ in range(r.randint(self.least, self.size))])
			if len(s) >= self.least:
				return s
	def ok(self, x):
		return isinstance(x, str) and len(x) >= self.least

CLASSES = {'escape_re': '', 'escape_user_re': ':@/?#', 'escape_password_re': '@/?#', 'escape_host_re': '@/?#', 'escape_port_re': '@/?#',
	'escape_path_re': '/?#', 'escape_query_key_re': '&=#', 'escape_query_value_re': '&#'}

def escaped(x, chars):
	return ''.join(['%' + '0123456789ABCDEF'[ord(c) // 16] + '0123456789ABCDEF'[ord(c) % 16] if ord(c) < 33 or c == '%' or c in chars else c for c in x])

@harness('P18', ['resolved.riparse.unescape', 'resolved.riparse.re_pct_encode'], mode='sampled', runs=6000, bound='sampled texts')
def component(v):
	"escaping removes the reserved characters and is undone"
	x = v.any('text', Comp(size=10))
	name = v.any('class', Choice(*sorted(CLASSES)))
	e = getattr(R, name).sub(R.re_pct_encode, x)
	for c in CLASSES[name]:
		v.check(c not in e, '%r is escaped by %s' % (c, name))
	v.eq(R.unescape(e), x, 'restored (%s)' % name)
	v.eq(R.unescape(R.escape_re.sub(R.re_pct_encode, x)), x, 'restored')

@harness('P18', ['resolved.riparse.unescape', 'resolved.riparse.re_pct_encode'], mode='sampled', runs=1, bound='every character below U+0180 and every escape')
def every_character(v):
	for i in range(0x180):
		for name in CLASSES:
			e = getattr(R, name).sub(R.re_pct_encode, chr(i))
			if R.unescape(e) != chr(i) or (chr(i) in CLASSES[name] and chr(i) in e):
				v.fail('%s of %r' % (name, chr(i)))
	for a, b in itertools.product('0123456789abcdefABCDEF', repeat=2):
		if R.unescape('x%' + a + b + 'y') != 'x' + chr(int(a + b, 16)) + 'y':
			v.fail('escape %' + a + b)
	for t in ('%', '%%', '%4', '%zz', '%4z', '%z4', 'a%', '%%41'):
		want = {'%%41': '%A'}.get(t, t)
		v.eq(R.unescape(t), want, 'an incomplete escape is itself')

def pct(chars):
	"specification of an escape: % and the two hexadecimal digits of each reserved character"
	t = {}
	for c in list(range(33)) + [ord(x) for x in '%' + chars]:
		t[c] = '%' + '0123456789ABCDEF'[c // 16] + '0123456789ABCDEF'[c % 16]
	return char_map(t)
FORMS = dict([(k, pct(CLASSES[k])) for k in CLASSES])
FORMS['search path'] = pct(',')

@stub('postgresql.resolved.riparse:unescape')
def _(x, mkval=chr):
	"an escaped text is restored (proved by restored)"
	r = preimage(x, FORMS.values())
	if r is None:
		return real(R.unescape, x, mkval)
	return r

@harness('P18', ['resolved.riparse.re_pct_encode', 'resolved.riparse.percent_escapes'])
def forms(v):
	"each escape is its specification, and no reserved character is left"
	x = v.any('text', Comp(size=10))
	for name in sorted(CLASSES):
		e = getattr(R, name).sub(R.re_pct_encode, x)
		v.eq(e, FORMS[name](x), name)
		for c in CLASSES[name]:
			v.check(c not in e, '%r is escaped by %s' % (c, name))
	e = I.construct_path([x])
	v.eq(e, FORMS['search path'](x), 'a name of the search path')
	v.check(',' not in e, 'the comma is escaped in a name of the search path')

def restoring(name):
	def restored(v):
		"every escaped text is restored"
		x = v.any('text', Comp(size=10))
		chars = list(range(33)) + [ord(c) for c in '%' + CLASSES.get(name, ',')]
		v.ghost(**{'escaped': x, 'form': FORMS[name], 'class': chars})
		v.eq(real(R.unescape, FORMS[name](x)), x, 'restored (%s)' % name)
	restored.__name__ = 'restored_' + name.replace(' ', '_')
	return restored

for _k in ('escape_re', 'escape_user_re', 'escape_password_re', 'escape_path_re', 'escape_query_key_re', 'escape_query_value_re', 'search path'):
	harness('P18', ['resolved.riparse.unescape', 'resolved.riparse.percent_escapes'])(restoring(_k))

# ---- whole indicators
@harness('P18', ['resolved.riparse.split_netloc', 'resolved.riparse.unsplit_netloc'], mode='sampled', runs=6000, bound='sampled components')
def location(v):
	user, pw = v.any('user', Opt(Comp())), v.any('password', Opt(Comp()))
	host, port = v.any('host', Opt(Comp(without=':[]', minlen=1))), v.any('port', Opt(Comp()))
	if user is None:
		pw = None
	if host is None:
		port = None
	n = R.unsplit_netloc((user, pw, host, port))
	if user is None and host is None:
		v.check(n is None, 'nothing')
	else:
		v.eq(R.split_netloc(n), (user, pw, host, port), 'the components')
		v.check(not set(n) & set('/?#'), 'no marker of another part')

@harness('P18', ['resolved.riparse.serialize', 'resolved.riparse.parse', 'resolved.riparse.construct', 'resolved.riparse.structure'], mode='sampled', runs=4000, bound='sampled components')
def indicators(v):
	d = {'scheme': v.any('scheme', Choice('pq', 'x'))}
	host = v.any('host', Opt(Comp(without=':[]', minlen=1)))
	user = v.any('user', Opt(Comp()))
	if user is not None:
		d['user'] = user
		pw = v.any('password', Opt(Comp()))
		if pw is not None:
			d['password'] = pw
	if host is not None:
		d['host'] = host
		port = v.any('port', Opt(Comp()))
		if port is not None:
			d['port'] = port
	path = v.any('path', Opt(FixedSeq(Comp(), range(4))))
	if path is not None and list(path) != ['']:
		d['path'] = list(path)
	q = v.any('query', Opt(FixedSeq(Tup(Comp(), Opt(Comp())), range(1, 4))))
	if q is not None and list(q) != [('', None)]:
		d['query'] = [tuple(x) for x in q]
	f = v.any('fragment', Opt(Comp()))
	if f is not None:
		d['fragment'] = f
	v.eq(R.parse(R.serialize(d)), d, 'comes back')

# ---- connection parameters
KEY = Comp(without='[]', minlen=1)
def draw(v):
	d = {}
	x = v.any('user', Opt(Comp()))
	if x is not None:
		d['user'] = x
		x = v.any('password', Opt(Comp()))
		if x is not None:
			d['password'] = x
	how = v.any('how', Choice('host', 'host', 'ipv6', 'unix', None))
	if how == 'host':
		d['host'] = v.any('host', Comp(without='[]', minlen=1))
	elif how == 'ipv6':
		d['host'] = v.any('address', Choice('::1', 'fe80::1%eth0', '1:2:3::4', '::%251', ':'))
	elif how == 'unix':
		d['unix'] = '/' + v.any('socket', Comp(without=':[]'))
	if 'host' in d:
		x = v.any('port', Opt(Comp()))
		if x is not None:
			d['port'] = x
	x = v.any('database', Opt(Comp(minlen=1)))
	if x is not None:
		d['database'] = x
	x = v.any('path', FixedSeq(Comp(), range(4)))
	if x:
		d['path'] = list(x)
	s = {}
	for i, (k, y) in enumerate(v.any('settings', FixedSeq(Tup(KEY, Comp()), range(4)))):
		if k != 'search_path':
			s[k] = y
	x = v.any('search path', FixedSeq(Comp(), range(4)))
	if x and list(x) != ['']:
		s['search_path'] = list(x)
	if s:
		d['settings'] = s
	for k, y in v.any('driver', FixedSeq(Tup(Choice('sslmode', 'connect_timeout', 'a key', 'x', 'k=', 'k&', '%'), Comp()), range(3))):
		d[k] = y
	return d

@harness('P18', ['iri.serialize', 'iri.parse', 'iri.construct', 'iri.structure'], mode='sampled', runs=8000, bound='sampled parameters')
def parameters(v):
	"building and parsing gives the parameters back"
	d = draw(v)
	s = I.serialize(d)
	v.eq(I.parse(s), d, 'comes back: %r' % s)
	v.eq(I.serialize(I.parse(s)), s, 'the same indicator')
	if 'settings' in d:
		pairs = dict(d, settings=list(d['settings'].items()))
		v.eq(I.parse(I.serialize(pairs)), d, 'settings as pairs')

@harness('P18', ['iri.serialize', 'iri.construct'], mode='sampled', runs=2000, bound='sampled parameters')
def obscured(v):
	"the password is replaced and nothing else"
	d = draw(v)
	if 'password' in d:
		want = dict(d, password='***')
	else:
		want = d
	v.eq(I.parse(I.serialize(d, obscure_password=True)), want, 'obscured')

@harness('P18', ['iri.parse', 'iri.construct_path'], mode='sampled', runs=1500, bound='sampled names')
def search_paths(v):
	"a search path given as text is split as identifiers"
	names = list(v.any('names', FixedSeq(Comp(minlen=1), range(1, 4))))
	t = ', '.join(['"' + n.replace('"', '""') + '"' for n in names])
	v.eq(I.parse(I.serialize({'settings': {'search_path': t}})), {'settings': {'search_path': names}}, 'names')

@harness('P18', ['iri.structure'], mode='sampled', runs=1500, bound='sampled indicators')
def override(v):
	"a driver parameter in the query never replaces a component"
	d = draw(v)
	k = v.any('key', Choice('user', 'host', 'port', 'database', 'path', 'settings', 'password', 'unix'))
	v.assume(k in d)
	s = I.serialize(dict(d, settings={'a': 'b'}))
	v.eq(I.parse(s.replace('a=b', '[' + k + ']=other')), I.parse(s.replace('a=b', '')), 'kept')

@harness('P18', ['iri.structure'], mode='sampled', runs=1, bound='listed schemes')
def schemes(v):
	for s in ('pq', 'postgres', 'postgresql', 'PQ', 'Postgres'):
		v.eq(I.parse(s + '://u@h'), {'user': 'u', 'host': 'h'}, 'scheme')
	for s in ('http', 'p', 'pqx', 'mysql', ''):
		o, x = v.outcome(I.parse, s + '://u@h')
		v.check(o == 'raise' and type(x) is ValueError, 'another scheme is refused')

# ---- proved for all texts
ANY = Text(alphabet='ab:/?#@%,&=[]')
NONE = Text(minlen=1, alphabet='ab:/?#@%,&=[]')
@harness('P18', ['resolved.riparse.unsplit_netloc', 'resolved.riparse.split_netloc'])
def location_all(v):
	"user, password, host and port, whatever they contain"
	user, pw = v.any('user', Opt(ANY)), v.any('password', Opt(ANY))
	host, port = v.any('host', Opt(Text(free='[:', minlen=1, alphabet='ab/?#@%,&='))), v.any('port', Opt(ANY))
	if user is None:
		pw = None
	if host is None:
		port = None
	n = R.unsplit_netloc((user, pw, host, port))
	if user is None and host is None:
		v.check(n is None, 'nothing')
	else:
		v.eq(R.split_netloc(n), (user, pw, host, port), 'the components')

def components(v):
	d = {}
	x = v.any('user', Opt(ANY))
	if x is not None:
		d['user'] = x
		x = v.any('password', Opt(ANY))
		if x is not None:
			d['password'] = x
	how = v.any('how', Choice('host', 'address', None))
	if how == 'host':
		d['host'] = v.any('host', Text(free='[:', minlen=1, alphabet='ab/?#@%,&='))
	elif how == 'address':
		d['host'] = v.any('part', Text(allowed='0123456789abcdefABCDEF')) + ':' + v.any('rest', Text(free='[]', alphabet='ab:/?#@%,&='))
	if how is not None:
		x = v.any('port', Opt(ANY))
		if x is not None:
			d['port'] = x
	x = v.any('database', Opt(NONE))
	if x is not None:
		d['database'] = x
	return d

@harness('P18', ['iri.serialize', 'iri.parse', 'iri.construct', 'iri.structure'])
def components_all(v):
	"user, password, host, port and database come back, whatever they contain"
	d = components(v)
	v.eq(I.parse(I.serialize(d)), d, 'the parameters')

@harness('P18', ['iri.construct', 'iri.structure', 'resolved.riparse.structure', 'resolved.riparse.construct_query'], mode='bounded', bound='at most 3 path components, whatever they contain')
def paths_all(v):
	d = {'host': 'h'}
	x = v.any('database', Opt(NONE))
	if x is not None:
		d['database'] = x
	p = v.any('path', FixedSeq(ANY, range(4)))
	if len(p):
		d['path'] = list(p)
	v.eq(I.parse(I.serialize(d)), d, 'the parameters')

@harness('P18', ['iri.construct', 'iri.structure', 'iri.construct_path'], mode='bounded', bound='at most 2 names, whatever they contain')
def search_path_all(v):
	p = list(v.any('names', FixedSeq(ANY, range(1, 4))))
	if len(p) == 1:
		v.assume(p[0] != '')
	d = {'user': 'u', 'settings': {'search_path': p}}
	v.eq(I.parse(I.serialize(d)), d, 'the parameters')

@harness('P18', ['iri.construct', 'iri.structure', 'resolved.riparse.construct_query'], mode='bounded', bound='two settings of known names and two driver parameters, whatever they contain')
def settings_all(v):
	d = {'user': 'u', 'settings': {}}
	for k in ('application name', 'x&y=z'):
		x = v.any(k, Opt(ANY))
		if x is not None:
			d['settings'][k] = x
	if not d['settings']:
		del d['settings']
	for k in ('sslmode', 'a%#'):
		x = v.any(k, Opt(ANY))
		if x is not None:
			d[k] = x
	v.eq(I.parse(I.serialize(d)), d, 'the parameters')

@harness('P18', ['iri.construct', 'iri.structure', 'resolved.riparse.construct_query'])
def setting_all(v):
	"a setting of any name"
	k, x = v.any('name', Text(free='[', minlen=1, alphabet='ab:/?#@%,&=')), v.any('value', ANY)
	v.assume(k != 'search_path')
	v.eq(list(I.parse(I.serialize({'settings': [(k, x)]}))['settings'].items()), [(k, x)], 'the parameters')
