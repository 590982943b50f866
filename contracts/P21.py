import io, itertools, os, sys, tempfile
from pyvc.api import *
from contracts.common import *
from postgresql import clientparameters as CP
from postgresql import iri as IRI

# PGxxx -> parameter, as documented
ENV = {
	'USER': ('user',), 'DATABASE': ('database',), 'HOST': ('host',), 'PORT': ('port',), 'PASSWORD': ('password',),
	'SSLMODE': ('sslmode',), 'SSLKEY': ('sslkey',), 'CONNECT_TIMEOUT': ('connect_timeout',),
	'REALM': ('kerberos4_realm',), 'KRBSRVNAME': ('kerberos5_service',), 'PASSFILE': ('pgpassfile',),
	'TZ': ('settings', 'timezone'), 'DATESTYLE': ('settings', 'datestyle'),
	'CLIENTENCODING': ('settings', 'client_encoding'), 'GEQO': ('settings', 'geqo'),
}
# option -> parameter
OPTIONS = {
	'-U': ('user',), '--username': ('user',), '-d': ('database',), '-h': ('host',), '-p': ('port',), '--unix': ('unix',),
	'--host': ('host',), '--port': ('port',), '--database': ('database',),
}
VALUE = Text()

def merge(*sources):
	"the last value of each path, as a dictionary of parameters"
	flat = {}
	for s in sources:
		for path, x in s:
			flat[path] = x
	d = {}
	for path, x in flat.items():
		if len(path) == 1:
			d[path[0]] = x
		else:
			d.setdefault(path[0], {})[path[1]] = x
	return d

@harness('P21', ['clientparameters.collect', 'clientparameters.envvars'])
def environment(v):
	"every documented variable gives the parameter it names, and no other"
	prefix = v.any('prefix', Choice('PG', 'PG_SRC_', ''))
	one = v.any('variable', Choice(*sorted(ENV)))
	two = v.any('another variable', Choice(*(sorted(ENV) + [None])))
	a, b = v.any('value', VALUE), v.any('another value', VALUE)
	if two == one:
		two = None
	env = {prefix + one: a}
	src = [(ENV[one], a)]
	if two is not None:
		env[prefix + two] = b
		src.append((ENV[two], b))
	v.eq(sorted_dict(CP.collect(no_defaults=True, environ=env, environ_prefix=prefix, prompt_title=None)), sorted_dict(merge(src)), 'parameters')

def sorted_dict(d):
	return [(k, sorted_dict(d[k]) if type(d[k]) is dict else d[k]) for k in sorted(d)]

@harness('P21', ['clientparameters.collect', 'clientparameters.envvars'])
def host_address(v):
	"PGHOSTADDR overrides PGHOST; PGREQUIRESSL stands behind PGSSLMODE"
	h, a, m = v.any('host', Opt(VALUE)), v.any('address', Opt(VALUE)), v.any('mode', Opt(VALUE))
	req = v.any('required', Choice(None, '0', '1', ' 1 ', ''))
	env = {}
	src = []
	if h is not None:
		env['PGHOST'] = h
		src.append((('host',), h))
	if a is not None:
		env['PGHOSTADDR'] = a
		src.append((('host',), a))
	if req is not None:
		env['PGREQUIRESSL'] = req
		if req.strip() == '1':
			src.append((('sslmode',), 'require'))
	if m is not None:
		env['PGSSLMODE'] = m
		src.append((('sslmode',), m))
	v.eq(sorted_dict(CP.collect(no_defaults=True, environ=env, prompt_title=None)), sorted_dict(merge(src)), 'parameters')

class Options(object):
	"parsed options"
	def __init__(self, ps):
		self.db_client_parameters = ps

@harness('P21', ['clientparameters.collect', 'clientparameters.normalize', 'clientparameters.extrapolate', 'clientparameters.denormalize_parameters'])
def precedence(v):
	"options over environment over parameters; others are untouched"
	var = v.any('variable', Choice(*sorted(ENV)))
	path = ENV[var]
	p, e, o, o2 = [v.any(n, Opt(VALUE)) for n in ('parameter', 'in the environment', 'option', 'later option')]
	src = [(('other',), v.any('other', VALUE)), (('settings', 'else'), v.any('setting', VALUE))]
	par = {'other': src[0][1], 'settings': {'else': src[1][1]}}
	if p is not None:
		if len(path) == 1:
			par[path[0]] = p
		else:
			par['settings'][path[1]] = p
		src.append((path, p))
	env = {}
	if e is not None:
		env['PG' + var] = e
		src.append((path, e))
	opts = []
	for x in (o, o2):
		if x is not None:
			opts.append((path, x))
			src.append((path, x))
	co = Options(opts)
	v.eq(sorted_dict(CP.collect(no_defaults=True, environ=env, parsed_options=co, parameters=par, prompt_title=None)), sorted_dict(merge(src)), 'parameters')
	v.eq(par['other'], src[0][1], 'the parameters given are not changed')

@harness('P21', ['clientparameters.normalize', 'clientparameters.denormalize_parameters'], mode='bounded', bound='at most 4 paths of one or two keys')
def normal(v):
	"the last value of every path; denormalised again the same"
	paths = [v.any('path %d' % i, Choice(('a',), ('b',), ('settings', 'a'), ('settings', 'b'))) for i in range(4)]
	xs = [v.any('value %d' % i, VALUE) for i in range(4)]
	ps = list(zip(paths, xs))
	d = CP.normalize(ps)
	v.eq(sorted_dict(d), sorted_dict(merge(ps)), 'normalised')
	v.eq(sorted_dict(CP.normalize(CP.denormalize_parameters(d))), sorted_dict(d), 'and back')

@harness('P21', ['clientparameters.normalize_parameter'])
def standard(v):
	"the former names of parameters"
	x = v.any('value', Choice('1', '0', 'REQUIRE', 'Prefer', True))
	k = v.any('key', Choice('requiressl', 'dbname', 'sslmode', 'user'))
	if k == 'sslmode':
		v.assume(x not in ('1', '0', True))
	r = CP.normalize_parameter(((k,), x))
	if k == 'requiressl' and x in ('1', True):
		want = (('sslmode',), 'require')
	elif k == 'dbname':
		want = (('database',), x)
	elif k == 'sslmode':
		want = (('sslmode',), x.lower())
	else:
		want = ((k,), x)
	v.eq(r, want, 'parameter')

# ---- whole command lines
WORDS = ['a', 'b', 'localhost', '5432', 'x y', "o'", '', '=', 'a=b', '-x', '\u00e9']
IRIS = ['pq://u:p@h:1/db?a=b', 'pq://h', 'pq://:9', 'pq:///d', 'pq://u@h/d?[driver]=x&tz=utc', 'h/d', 'pq://[unix:/tmp/x]/d?s=1&a=2']
def rand_argv(r, size):
	av = []
	for _ in range(r.randint(0, 5)):
		k = r.random()
		if k < 0.55:
			av.append((r.choice(sorted(OPTIONS)), r.choice(WORDS)))
		elif k < 0.7:
			av.append(('-s', r.choice(['a', 'b', 'timezone', 'search_path']) + '=' + r.choice(WORDS)))
		elif k < 0.8:
			av.append(('--ssl-mode', r.choice(['require', 'prefer', 'allow', 'disable'])))
		elif k < 0.9:
			av.append(('-I', r.choice(IRIS)))
		else:
			av.append(('-W', None))
	return av
def rand_env(r, size):
	return {k: r.choice(WORDS) for k in sorted(ENV) if r.random() < 0.3}
def rand_par(r, size):
	return [(r.choice([('user',), ('host',), ('port',), ('database',), ('sslmode',), ('settings', 'a'), ('settings', 'timezone'), ('other',)]), r.choice(WORDS)) for _ in range(r.randint(0, 4))]

def options_of(av):
	src = []
	for o, x in av:
		if o == '-s':
			k, y = x.split('=', 1)
			src.append((('settings', k), y))
		elif o == '--ssl-mode':
			src.append((('sslmode',), x))
		elif o == '-W':
			src.append((('prompt_password',), True))
		elif o == '-I':
			src.extend(flatten(IRI.parse(x)))
		else:
			src.append((OPTIONS[o], x))
	return src
def flatten(d):
	src = []
	for k, x in d.items():
		if k == 'settings':
			src.extend([(('settings', q), y) for q, y in dict(x).items()])
		else:
			src.append(((k,), x))
	return src
def argv_of(av):
	out = []
	for o, x in av:
		if x is None:
			out.append(o)
		elif o.startswith('--'):
			out.append(o + '=' + x)
		elif x == '':
			out.extend([o, x])
		else:
			out.append(o + x)
	return out

@harness('P21', ['clientparameters.collect', 'clientparameters.DefaultParser', 'clientparameters.append_settings', 'clientparameters.x_pq_iri'], mode='sampled', runs=4000, bound='sampled command lines and environments')
def command_line(v):
	"every option gives its own parameter, the last one counts"
	av = v.any('options', Search('options', rand_argv))
	env = v.any('environment', Search('environment', rand_env))
	par = v.any('parameters', Search('parameters', rand_par))
	co, ca = CP.DefaultParser().parse_args(argv_of(av))
	v.eq(ca, [], 'no arguments')
	e = {'PG' + k: x for k, x in env.items()}
	base = merge(par)
	r = CP.collect(parsed_options=co, no_defaults=True, environ=e, parameters=base, prompt_title=None)
	v.eq(r, merge(par, [(ENV[k], x) for k, x in env.items()], options_of(av)), 'parameters')
	r = CP.collect(parsed_options=co, no_defaults=True, environ=None, parameters=base, prompt_title=None)
	v.eq(r, merge(par, options_of(av)), 'without the environment')
	r = CP.collect(parsed_options=co, environ=e, parameters=base, prompt_title=None)
	want = merge(par, [(ENV[k], x) for k, x in env.items()], options_of(av))
	for k, x in want.items():
		v.eq(r.get(k), x, 'with defaults')
	d = CP.collect(environ={}, prompt_title=None)
	for k in r:
		if k not in want:
			v.eq(r[k], d.get(k), 'default')
	for k in d:
		v.check(k in r, 'every default')

@harness('P21', ['clientparameters.defaults'], mode='sampled', runs=20, bound='the user of the check')
def default_values(v):
	r = CP.collect(environ={}, prompt_title=None)
	v.eq((r['host'], r['port'], r['user']), ('localhost', 5432, CP.getuser()), 'defaults')

FILES = {'sslcrtfile': '.postgresql/postgresql.crt', 'sslkeyfile': '.postgresql/postgresql.key', 'sslrootcrtfile': '.postgresql/root.crt',
	'sslrootcrlfile': '.postgresql/root.crl', 'pgpassfile': '.pgpass'}

@harness('P21', ['clientparameters.defaults'], mode='sampled', runs=300, bound='every set of the files of a home directory')
def default_files(v):
	"the files of the user's home directory that exist are each the default of their own parameter"
	bits = v.any('files', Int(0, 31))
	import os
	have = {k: os.path.join('/home/some one', FILES[k]) for i, k in enumerate(sorted(FILES)) if bits >> i & 1}
	saved = os.path.exists, os.path.expanduser, CP.getuser
	try:
		os.path.exists = lambda p: p in have.values()
		os.path.expanduser = lambda p: p.replace('~someone', '/home/some one')
		CP.getuser = lambda: 'someone'
		d = dict([(k[0], x) for k, x in CP.defaults(environ={})])
	finally:
		os.path.exists, os.path.expanduser, CP.getuser = saved
	v.eq(d, dict(have, user='someone', host='localhost', port=5432), 'each file its parameter')

@harness('P21', ['clientparameters.append_settings'], mode='sampled', runs=50, bound='sampled')
def bad_setting(v):
	x = v.any('setting', Choice('a', '', 'abc', 'a b'))
	co = CP.DefaultParser()
	co.error = co.exit = lambda *a: (_ for _ in ()).throw(ValueError('usage'))
	r = v.outcome(co.parse_args, ['--setting', x])
	v.check(r[0] == 'raise' and isinstance(r[1], (ValueError, CP.optparse.OptParseError)), 'refused')

SERVICE_KEYS = {'user': ('user',), 'host': ('host',), 'hostaddr': ('host',), 'port': ('port',), 'dbname': ('database',), 'password': ('password',),
	'sslmode': ('sslmode',), 'search_path': ('settings', 'search_path'), 'timezone': ('settings', 'timezone'), 'connect_timeout': ('connect_timeout',)}

@harness('P21', ['clientparameters.x_pg_service', 'clientparameters.extrapolate'], mode='sampled', runs=600, bound='sampled service files')
def services(v):
	"the service named gives its parameters, over the environment and under the options"
	def rand(r, size):
		return [(s, [(k, r.choice(['a', 'b', '1', 'x y'])) for k in sorted(SERVICE_KEYS) if r.random() < 0.4]) for s in ('one', 'two') if r.random() < 0.8]
	files = v.any('files', Search('files', lambda r, size: (rand(r, size), rand(r, size))))
	name = v.any('service', Choice('one', 'two'))
	env = v.any('environment', Search('environment', rand_env))
	av = [x for x in v.any('options', Search('options', rand_argv))]
	where = v.any('where', Choice('environ', 'argument', 'sysconfdir', 'default_sysconfdir', 'both'))
	with tempfile.TemporaryDirectory() as d:
		for n, f in zip(('pg_service.conf', 'own.conf'), files):
			with open(os.path.join(d, n), 'w') as w:
				for s, items in f:
					w.write('[' + s + ']\n' + ''.join([k + '=' + x + '\n' for k, x in items]))
		e = {'PG' + k: x for k, x in env.items()}
		e['PGSERVICE'] = name
		kw = {}
		own = os.path.join(d, 'own.conf')
		if where == 'environ':
			e['PGSERVICEFILE'] = own
			look = [files[1]]
		elif where == 'argument':
			kw['pg_service_file'] = own
			look = [files[1]]
		elif where == 'sysconfdir':
			e['PGSYSCONFDIR'] = d
			kw['default_pg_sysconfdir'] = d + 'x'
			look = [files[0]]
		elif where == 'default_sysconfdir':
			kw['default_pg_sysconfdir'] = d
			look = [files[0]]
		else:
			e['PGSYSCONFDIR'] = d
			e['PGSERVICEFILE'] = own
			look = [files[1], files[0]]
		want = None
		for f in look:
			for s, items in f:
				if s == name and want is None:
					want = [(SERVICE_KEYS[k], x) for k, x in items]
		co, ca = CP.DefaultParser().parse_args(argv_of(av))
		old = CP.getuser
		CP.getuser = lambda: 'no-such-user-' + os.path.basename(d)
		try:
			r = v.outcome(CP.collect, parsed_options=co, no_defaults=True, environ=e, prompt_title=None, **kw)
		finally:
			CP.getuser = old
		if want is None:
			v.check(r[0] == 'raise' and isinstance(r[1], CP.ServiceDoesNotExistError), 'no such service')
			return
		v.eq(r[0], 'ok', repr(r))
		v.eq(r[1], merge([(ENV[k], x) for k, x in env.items()], want, options_of(av)), 'parameters')

class Stdin(object):
	def __init__(self, tty, line):
		self.tty, self.line = tty, line
	def isatty(self):
		return self.tty
	def readline(self):
		return self.line

@harness('P21', ['clientparameters.resolve_password'], mode='sampled', runs=3000, bound='sampled parameters')
def password(v):
	"the prompt over the password given over the password file; what only serves to find it is removed"
	prompt = v.any('prompt', Choice(None, True, False))
	given = v.any('password', Choice(None, 'given', ''))
	missing = v.any('password missing', Bool())
	passfile = v.any('file', Choice(None, 'hit', 'miss', 'absent'))
	title = v.any('title', Choice(None, '', 'T'))
	title2 = v.any('title of the parameters', Choice(None, 'P'))
	tty = v.any('terminal', Bool())
	p = {'user': 'u', 'host': 'h', 'port': 5432, 'database': 'd'}
	if not missing:
		p['password'] = given
	else:
		given = None
	if prompt is not None:
		p['prompt_password'] = prompt
	if title2 is not None:
		p['prompt_title'] = title2
	asked = []
	def ask(text):
		asked.append(text)
		return 'typed'
	with tempfile.TemporaryDirectory() as d:
		f = os.path.join(d, 'pgpass')
		if passfile is not None:
			p['pgpassfile'] = f
			if passfile != 'absent':
				with open(f, 'w') as w:
					w.write('other:*:*:*:no\n' + ('h:5432:d:u:found\n' if passfile == 'hit' else ''))
		old = sys.stdin
		sys.stdin = Stdin(tty, 'line' + v.any('end', Choice('', os.linesep)))
		try:
			CP.resolve_password(p, getpass=ask, prompt_title=title)
		finally:
			sys.stdin = old
	if prompt is True:
		want = 'typed' if tty else 'line'
		v.eq(len(asked), 1 if tty else 0, 'asked')
		if tty:
			t = title or title2 or ''
			v.check(asked[0].startswith('Password for ' + t + '[pq://u'), 'title')
			v.check(not given or given not in asked[0], 'no password in the prompt')
	else:
		want = given
		if given is None and passfile == 'hit':
			want = 'found'
		v.eq(asked, [], 'not asked')
	v.eq(p.get('password'), want, 'password')
	v.eq({k: x for k, x in p.items() if k != 'password'}, {'user': 'u', 'host': 'h', 'port': 5432, 'database': 'd'}, 'the rest')

class Fake(object):
	"a driver that only keeps what it is given"
	class default(object):
		@staticmethod
		def fit(**kw):
			return kw

@harness('P21', ['postgresql.open', 'driver.dbapi20.connect'], mode='sampled', runs=1500, bound='sampled parameters')
def opening(v):
	"keywords over the IRI over the environment over the defaults"
	import postgresql
	import postgresql.driver
	from postgresql.driver import dbapi20
	iri = v.any('iri', Choice(None, *IRIS))
	kw = merge(v.any('keywords', Search('keywords', rand_par)))
	env = v.any('environment', Search('environment', rand_env))
	env.pop('PASSFILE', None)
	ip = IRI.parse(iri) if iri is not None else {}
	ip.pop('path', None)
	keep = dict(os.environ)
	driver, connect = postgresql.driver.default, dbapi20.driver.connect
	for k in list(os.environ):
		if k.startswith('PG'):
			del os.environ[k]
	os.environ.update({'PG' + k: x for k, x in env.items()})
	try:
		postgresql._pg_driver = Fake
		if postgresql._pg_iri is None:
			postgresql._pg_iri, postgresql._pg_param = IRI, CP
		r = postgresql.open('&' + (iri or ''), **kw) if iri is not None else postgresql.open('&pq://', **kw)
		dbapi20.driver.connect = Fake.default.fit
		r2 = dbapi20.connect(**kw)
		d = CP.collect(environ={}, prompt_title=None)
	finally:
		for k in list(os.environ):
			if k.startswith('PG'):
				del os.environ[k]
		os.environ.update(keep)
		del dbapi20.driver.connect
		postgresql._pg_iri = postgresql._pg_driver = postgresql._pg_param = None
	if 'unix' in ip or 'unix' in kw:
		std = [x for x in flatten(d) + [(ENV[k], x) for k, x in env.items()] if x[0] not in (('host',), ('port',))]
	else:
		std = flatten(d) + [(ENV[k], x) for k, x in env.items()]
	want = merge(std, flatten(ip), flatten(kw))
	for w in (want, r, r2):
		w.pop('pgpassfile', None)
		if w.get('password') is None:
			w.pop('password', None)
	v.eq(r, want, 'parameters of open')
	want2 = merge(flatten(d) + [(ENV[k], x) for k, x in env.items()], flatten(kw))
	want2.pop('pgpassfile', None)
	v.eq(r2, want2, 'parameters of the DB-API')
