import os
from pyvc.api import *
from contracts.common import *
from postgresql import exceptions as X
from postgresql.driver import pq3
from postgresql.protocol import element3 as E3
from postgresql.message import Message

# the documented codes (Appendix A of the server's documentation, and the driver's own '--' codes)
ERRORS, WARNINGS = {}, {}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'P28_codes.txt')) as f:
	for line in f:
		if len(line.split()) != 2:
			continue
		c, n = line.split()
		if c[0] == 'W':
			WARNINGS[c[1:]] = n
		else:
			ERRORS[c] = n
# the class of each two-character error class
ECLASS = dict([(c[:2], n) for c, n in ERRORS.items() if c[2:] == '000'])
WCLASS = dict([(c[:2], n) for c, n in WARNINGS.items() if c[2:] == '000'])

KNOWN = tuple(sorted(ERRORS)) + tuple(sorted(WARNINGS))
CODE = Text(length=5, allowed='0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZc-')

def expected(code, table, classes, generic):
	n = table.get(code)
	if n is None:
		n = classes.get(code[:2], generic)
	return n

@harness('P28', ['exceptions.code_lookup', 'exceptions.map_errors_and_warnings'], paths=9000)
def every_known_code(v):
	"a registered code gives its own class"
	code = v.any('code', Choice(*sorted(ERRORS)))
	c = X.ErrorLookup(code)
	v.check(c.__name__ == ERRORS[code] and c is getattr(X, ERRORS[code]), 'error class')
	v.check(issubclass(c, X.Error) and not issubclass(c, X.Warning), 'an error')
	v.check(c.code == code or getattr(c, 'pg_code', None) == code, 'reachable by its code')

@harness('P28', ['exceptions.code_lookup', 'exceptions.map_errors_and_warnings'])
def every_known_warning(v):
	code = v.any('code', Choice(*sorted(WARNINGS)))
	c = X.WarningLookup(code)
	v.check(c.__name__ == WARNINGS[code] and c is getattr(X, WARNINGS[code]), 'warning class')
	v.check(issubclass(c, X.Warning) and not issubclass(c, X.Error) and c.code == code, 'a warning with that code')

@harness('P28', ['exceptions.code_lookup'], paths=9000)
def any_code(v):
	"every five-character code: its own class, else its class's, else the generic one"
	code = v.any('code', CODE)
	v.check(X.ErrorLookup(code).__name__ == expected(code, ERRORS, ECLASS, 'Error'), 'error class')

@harness('P28', ['exceptions.code_lookup'], paths=9000)
def any_code_of_a_class(v):
	"codes near the registered ones"
	cls = v.any('class', Choice(*sorted(set(c[:2] for c in KNOWN))))
	rest = v.any('rest', Text(length=3, allowed='0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZc-'))
	code = cls + rest
	v.check(X.ErrorLookup(code).__name__ == expected(code, ERRORS, ECLASS, 'Error'), 'error class')
	v.check(X.WarningLookup(code).__name__ == expected(code, WARNINGS, WCLASS, 'Warning'), 'warning class')

@harness('P28', ['exceptions.code_lookup'], paths=9000)
def any_warning_code(v):
	code = v.any('code', CODE)
	v.check(X.WarningLookup(code).__name__ == expected(code, WARNINGS, WCLASS, 'Warning'), 'warning class')

@harness('P28', ['exceptions.map_errors_and_warnings'], mode='sampled', bound='sampled orders of eight objects', runs=800)
def mapping(v):
	"of classes sharing a code the most general one is registered; classes without a code, and other objects, are not"
	class A(X.Error):
		code = 'ZZ000'
	class B(A):
		pass
	class C(B):
		code = 'ZZ001'
		pg_code = 'ZZ002'
	class N(X.Error):
		code = None
	class W(X.Warning):
		code = 'ZZ000'
	class Other(object):
		code = 'ZZ003'
	objs = [A, B, C, N, W, Other, 7, None]
	order = v.any('order', FixedSeq(Int(0, 7), [8]))
	left, out = list(range(8)), []
	for x in order:
		out.append(objs[left.pop(x % len(left))])
	e, w = {}, {}
	X.map_errors_and_warnings(out, e, w)
	v.check(e == {'ZZ000': A, 'ZZ001': C, 'ZZ002': C} and w == {'ZZ000': W}, 'the most general class of each code')

@harness('P28', ['exceptions.map_errors_and_warnings'])
def one_class_per_code(v):
	"no code is declared by two unrelated classes; every exported class is reachable by its code, or is a container of others"
	seen = {}
	for n, c in list(vars(X).items()):
		if not (isinstance(c, type) and issubclass(c, (X.Error, X.Warning))):
			continue
		for attr in ('code', 'pg_code'):
			if attr in vars(c) and vars(c)[attr]:
				k = (issubclass(c, X.Error), vars(c)[attr])
				v.check(seen.setdefault(k, c) is c, 'a code of two classes')
				look = X.ErrorLookup if k[0] else X.WarningLookup
				v.check(look(k[1]) is c, 'reachable by its code')
	v.check(len(seen) == len(ERRORS) + len(WARNINGS), 'every documented code has its class')

DB = None
class Database(object):
	pass
class IO(object):
	"what the error path of TypeIO uses"
	def __init__(self):
		self.database = Database()
	lookup_exception = pq3.TypeIO.lookup_exception
	lookup_warning = pq3.TypeIO.lookup_warning
	raise_client_error = pq3.TypeIO.raise_client_error
	raise_server_error = pq3.TypeIO.raise_server_error
	raise_error = pq3.TypeIO.raise_error
	emit_message = pq3.TypeIO.emit_message
	emit_client_message = pq3.TypeIO.emit_client_message
	emit_server_message = pq3.TypeIO.emit_server_message
	decode_notice = pq3.TypeIO.decode_notice
	_decode_failsafe = pq3.TypeIO._decode_failsafe
	def _decode(self, b):
		return (b.decode('utf-8'), len(b))

SOME = tuple(sorted(ERRORS))[10::23] + ('22ZZZ', '00000', 'ZZ000', '01000', '40P99', '42000', '42704')
SOMEW = tuple(sorted(WARNINGS)) + ('01999', '02ABC', '03000', 'ZZ123')

@harness('P28', ['driver.pq3.TypeIO.raise_error', 'driver.pq3.TypeIO.raise_server_error', 'driver.pq3.TypeIO.raise_client_error'], mode='bounded', bound='a selection of codes')
def raised(v):
	"an error message of the server, or of the client, is raised as the class of its code with its text and details"
	code = v.any('code', Choice(*SOME))
	text = v.any('text', Choice('', 'a message', 'überlauf'))
	client = v.any('client', Bool())
	cause = v.any('cause', Choice(None, 1))
	cause = None if cause is None else ValueError(1)
	io = IO()
	if client:
		m = E3.ClientError(((b'S', 'FATAL'), (b'C', code), (b'M', text), (b'D', 'more'), (b'!', 'x')))
	else:
		m = E3.Error(((b'S', b'ERROR'), (b'C', code.encode()), (b'M', text.encode('utf-8')), (b'D', b'more'), (b'!', b'x')))
	kw = {}
	if cause is not None:
		kw['cause'] = cause
	try:
		io.raise_error(m, **kw)
	except X.Error as e:
		v.check(type(e).__name__ == expected(code, ERRORS, ECLASS, 'Error'), 'class of the code')
		v.check(e.code == code and e.message == text, 'code and text')
		v.check(e.source == ('CLIENT' if client else 'SERVER'), 'source')
		v.check(e.details == {'severity': 'FATAL' if client else 'ERROR', 'detail': 'more'}, 'details')
		v.check(e.__cause__ is cause, 'cause')
		v.check(e.database is io.database, 'database')
	else:
		v.fail('nothing was raised')

class Sink(object):
	def __init__(self):
		self.got = []
	def msghook(self, m):
		self.got.append(m)
		return True

@harness('P28', ['driver.pq3.TypeIO.emit_message', 'driver.pq3.TypeIO.emit_server_message', 'driver.pq3.TypeIO.emit_client_message'], mode='sampled', bound='a selection of codes', runs=600)
def emitted(v):
	"a warning is emitted as the class of its code, other notices as messages"
	code = v.any('code', Choice(*SOMEW))
	sev = v.any('severity', Choice('WARNING', 'NOTICE', 'INFO', 'warning'))
	client = v.any('client', Bool())
	io = IO()
	sink = Sink()
	if client:
		m = E3.ClientNotice(((b'S', sev), (b'C', code), (b'M', 'text'), (b'H', 'hint')))
	else:
		m = E3.Notice(((b'S', sev.encode()), (b'C', code.encode()), (b'M', b'text'), (b'H', b'hint')))
	r = io.emit_message(m, creator = sink)
	want = expected(code, WARNINGS, WCLASS, 'Warning') if sev.upper() == 'WARNING' else 'Message'
	v.check(type(r).__name__ == want, 'class of the code')
	v.check(r.code == code and r.message == 'text' and r.source == ('CLIENT' if client else 'SERVER'), 'code, text and source')
	v.check(r.details == {'severity': sev, 'hint': 'hint'}, 'details')
	v.check(sink.got == [r], 'emitted once')
