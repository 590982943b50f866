from pyvc.api import *
from contracts.common import *
from postgresql import string as S
from postgresql.driver import pq3

# specification: the escaped form doubles the quote character
DBL1 = Hom('spec-double-single-quotes', 'str', lambda c: "''" if c == "'" else c, minlen=1)
DBL2 = Hom('spec-double-double-quotes', 'str', lambda c: '""' if c == '"' else c, minlen=1)
ANY = Text(alphabet='\'\'""\\;aA_1. -$\n\x00\u00e9')

def lit(x):
	return "'" + DBL1(x) + "'"
def ident(x):
	return '"' + DBL2(x) + '"'

def read(text, q):
	"the server's reading of a quoted token at the start of a text: its content and what follows (or None)"
	if text[:1] != q:
		return None
	i, out = 1, []
	while i < len(text):
		if text[i] == q:
			if text[i + 1:i + 2] == q:
				out.append(q)
				i += 2
				continue
			return ''.join(out), text[i + 1:]
		out.append(text[i])
		i += 1
	return None

@harness('P16', ['string.escape_literal', 'string.quote_literal'])
def literal(v):
	"the text with each quote doubled, between quotes"
	t = v.any('text', ANY)
	v.eq(S.escape_literal(t), DBL1(t), 'escaped')
	v.eq(S.quote_literal(t), lit(t), 'quoted')

@harness('P16', ['string.escape_ident', 'string.quote_ident'])
def identifier(v):
	t = v.any('text', ANY)
	v.eq(S.escape_ident(t), DBL2(t), 'escaped')
	v.eq(S.quote_ident(t), ident(t), 'quoted')

@harness('P16', ['string.escape_literal', 'string.escape_ident'])
def step(v):
	"induction step of the reading lemma: one character is one unit of the escaped text, whatever follows"
	c = v.any('char', Text(length=1, alphabet='\'"a\\'))[0]
	rest = v.any('rest', ANY)
	v.eq(S.escape_literal(c + rest), ("''" if c == "'" else c) + S.escape_literal(rest), 'unit of a literal')
	v.eq(S.escape_ident(c + rest), ('""' if c == '"' else c) + S.escape_ident(rest), 'unit of an identifier')
	v.eq(S.escape_literal(''), '', 'nothing')
	v.eq(S.escape_ident(''), '', 'nothing')

@harness('P16', ['string.quote_literal', 'string.quote_ident'], mode='bounded', bound='texts of at most 4 characters')
def reads_back(v):
	"read by the server's rules the token denotes the text and ends at its closing quote, whatever follows"
	n = v.any('length', Choice(*range(5)))
	t = ''.join([v.any('c%d' % i, Text(length=1, alphabet='\'"a\\')) for i in range(n)])
	tail = v.any('tail', Choice('', ';', ' x', '\\'))
	r = read(S.quote_literal(t) + tail, "'")
	v.check(r is not None, 'a literal')
	v.eq(r[0], t, 'denotes the text')
	v.eq(r[1], tail, 'ends at its closing quote')
	r = read(S.quote_ident(t) + tail, '"')
	v.check(r is not None, 'an identifier')
	v.eq(r[0], t, 'denotes the text')
	v.eq(r[1], tail, 'ends at its closing quote')

@harness('P16', ['string.quote_literal', 'string.quote_ident', 'string.qname'], mode='sampled', bound='sampled texts', runs=3000, size=40)
def reads_back_long(v):
	t, u = v.any('text', ANY), v.any('other', ANY)
	tail = v.any('tail', Choice('', ';', ' x', '\\'))
	v.check(read(S.quote_literal(t) + tail, "'") == (t, tail), 'literal')
	v.check(read(S.quote_ident(t) + tail, '"') == (t, tail), 'identifier')
	v.check((t == u) == (S.quote_ident(t) == S.quote_ident(u)), 'injective')
	q = S.qname(t, u)
	a = read(q, '"')
	v.check(a is not None and a[0] == t and a[1][:1] == '.' and read(a[1][1:], '"') == (u, ''), 'qualified name')

def plain(t):
	"an unquoted identifier that denotes exactly t: start and continuation characters of the server, lower case"
	if not t:
		return False
	if t != t.lower():
		return False
	for i, c in enumerate(t):
		if c == '_' or 'a' <= c <= 'z' or ord(c) > 127:
			continue
		if i and ('0' <= c <= '9' or c == '$'):
			continue
		return False
	return True

IDENTS = Text(alphabet='aAzZ_019$".\' -\u00e9\u00c9\u0663\xb2')

@harness('P16', ['string.quote_ident_if_needed', 'string.needs_quoting', 'string.qname_if_needed'], mode='sampled', bound='sampled names', runs=4000, size=6)
def if_needed(v):
	"a name left as it is denotes itself; otherwise it is quoted"
	t = v.any('text', IDENTS)
	r = S.quote_ident_if_needed(t)
	if r == t and not (t[:1] == '"'):
		v.check(plain(t), 'denotes itself unquoted')
	else:
		v.check(read(r, '"') == (t, ''), 'quoted')
	if not S.needs_quoting(t):
		v.check(plain(t.lower()) or t.lower() != t.lower().lower(), 'an identifier')
	u = v.any('other', IDENTS)
	v.eq(S.qname_if_needed(t, u), r + '.' + S.quote_ident_if_needed(u), 'qualified name')

@harness('P16', ['string.quote_ident_if_needed', 'string.needs_quoting'], mode='bounded', bound='names of at most 2 characters', paths=9000)
def if_needed_short(v):
	n = v.any('length', Choice(0, 1, 2))
	t = ''.join([v.any('c%d' % i, Text(length=1, allowed='aAzZ_019$". -;'))[0] for i in range(n)])
	r = S.quote_ident_if_needed(t)
	if size(r) == size(t):
		v.eq(r, t, 'left as it is')
		v.check(n > 0, 'the empty name is quoted')
		for i in range(n):
			c = t[i]
			v.check(c == '_' or ('a' <= c and c <= 'z') or (i > 0 and '0' <= c and c <= '9'), 'denotes itself unquoted')
	else:
		v.eq(r, ident(t), 'quoted')

@harness('P16', ['string.qname'], mode='bounded', bound='at most 4 parts')
def qualified(v):
	parts = v.any('parts', FixedSeq(ANY, range(1, 5)))
	want = ident(parts[0])
	for p in parts[1:]:
		want = want + '.' + ident(p)
	v.eq(S.qname(*parts), want, 'quoted parts, separated by dots')

# ---- SQL built by the driver

class Conn(object):
	"records the SQL a connection would send"
	def __init__(self):
		self.sent = []
	def execute(self, q):
		self.sent.append(q)
	listen = pq3.Connection.listen
	unlisten = pq3.Connection.unlisten
	notify = pq3.Connection.notify
	do = pq3.Connection.do

NAME = Text(alphabet='\'"";a A', maxlen=63)
PAYLOAD = Text(alphabet='\'\'";a\\')

def sql(v, got, want):
	"the statements: the expected ones, up to empty statements and blanks between"
	if v.symbolic:
		v.eq(got, want, 'exactly these statements')
	else:
		a, b = tokens(got), tokens(want)
		v.eq(a, b, 'exactly these statements')

def tokens(s):
	"the server's tokens of the statements, without empty ones"
	out, i = [], 0
	while i < len(s):
		c = s[i]
		if c in '\'"':
			r = read(s[i:], c)
			if r is None:
				return ['unterminated', s]
			out.append((c, r[0]))
			i = len(s) - len(r[1])
			continue
		if c in ' \n\t':
			i += 1
			continue
		if c == ';':
			if out and out[-1] != ';':
				out.append(';')
			i += 1
			continue
		j = i
		while j < len(s) and s[j] not in ' \n\t;\'"':
			j += 1
		out.append(s[i:j].lower())
		i = j
	if out and out[-1] == ';':
		out.pop()
	return out

@harness('P16', ['driver.pq3.Connection.listen', 'driver.pq3.Connection.unlisten'], mode='bounded', bound='at most 3 channels')
def listening(v):
	"each channel named is listened to, and nothing else is executed"
	cs = v.any('channels', FixedSeq(NAME, range(1, 4)))
	d = Conn()
	d.listen(*cs)
	d.unlisten(*cs)
	want = ''.join(['; LISTEN ' + ident(c) for c in cs])
	v.check(len(d.sent) == 2, 'one batch')
	sql(v, d.sent[0], want)
	sql(v, d.sent[1], ''.join(['; UNLISTEN ' + ident(c) for c in cs]))

@harness('P16', ['driver.pq3.Connection.notify'], mode='bounded', bound='at most 2 channels')
def notifying(v):
	"channels and payloads are quoted"
	cs = v.any('channels', FixedSeq(Choice(0, 1), range(0, 3)))
	args, want = [], []
	for i, k in enumerate(cs):
		c, p = v.any('channel%d' % i, NAME), v.any('payload%d' % i, PAYLOAD)
		if k:
			args.append((c, p))
			want.append('NOTIFY ' + ident(c) + ',' + lit(p))
		else:
			args.append(c)
			want.append('NOTIFY ' + ident(c))
	q = ''
	if want:
		q = ';'.join(want) + ';'
	kw = {}
	if v.any('keyword', Bool()):
		p = v.any('payload', PAYLOAD)
		kw['chan'] = p
		q = q + 'NOTIFY "chan",' + lit(p) + ';'
	d = Conn()
	d.notify(*args, **kw)
	v.check(len(d.sent) == 1, 'one batch')
	sql(v, d.sent[0], q)

@harness('P16', ['driver.pq3.Connection.do'])
def do(v):
	l, s = v.any('language', ANY), v.any('source', ANY)
	d = Conn()
	d.do(l, s)
	v.check(len(d.sent) == 1, 'one statement')
	sql(v, d.sent[0], 'DO ' + lit(s) + ' LANGUAGE ' + ident(l) + ';')

class Settings(object):
	def __init__(self):
		self.database = Conn()
		self.cache = {}
		self.set = {}
	__delitem__ = pq3.Settings.__delitem__
	path = pq3.Settings.path
	def __setitem__(self, k, x):
		self.set[k] = x
	def __getitem__(self, k):
		return self.set[k]

@harness('P16', ['driver.pq3.Settings.__delitem__'])
def reset(v):
	k = v.any('name', ANY)
	s = Settings()
	del s[k]
	v.check(len(s.database.sent) == 1, 'one statement')
	sql(v, s.database.sent[0], 'RESET ' + ident(k))

@harness('P16', ['driver.pq3.Settings.path'], mode='bounded', bound='at most 3 schemas')
def search_path(v):
	ps = v.any('path', FixedSeq(Text(alphabet='"", aA\'', minlen=1), range(1, 4)))
	s = Settings()
	s.path = ps
	v.check(list(s.set) == ['search_path'], 'sets the search path')
	sql(v, s.set['search_path'], ','.join([ident(p) for p in ps]))
	if not v.symbolic:
		v.eq(s.path, ps, 'and reads back')

@harness('P16', ['driver.pq3.Transaction._savepoint_xact_string', 'driver.pq3.Transaction._release_string', 'driver.pq3.Transaction._rollback_to_string'])
def savepoints(v):
	"the three statements name the same savepoint, and nothing but it"
	i = v.any('id', ANY)
	T = pq3.Transaction
	n = '"xact(' + DBL2(i) + ')"'
	sql(v, T._savepoint_xact_string(i), 'SAVEPOINT ' + n + ';')
	sql(v, T._release_string(i), 'RELEASE ' + n + ';')
	sql(v, T._rollback_to_string(i), 'ROLLBACK TO ' + n + '; RELEASE ' + n + ';')

class PQ(object):
	def register_cursor(self, *a):
		pass
class DB(object):
	def __init__(self):
		self.typio = self
		self.pq = PQ()
	def encode(self, x):
		return x
class Out(pq3.Output):
	def __init__(self):
		pass
	def _init(self):
		pass

@harness('P16', ['driver.pq3.Output.__init__'])
def cursor_name(v):
	c = v.any('cursor', ANY)
	o = Out()
	o.database = DB()
	pq3.Output.__init__(o, c)
	sql(v, o._quoted_cursor_id, ident(c))

class TypeIO(object):
	def __init__(self, info):
		self.typinfo = info
	sql_type_from_oid = pq3.TypeIO.sql_type_from_oid

@harness('P16', ['driver.pq3.TypeIO.sql_type_from_oid'])
def type_name(v):
	nsp, name = v.any('namespace', ANY), v.any('name', ANY)
	t = TypeIO({987654: (nsp, name, 0)})
	sql(v, t.sql_type_from_oid(987654), ident(nsp) + '.' + ident(name))

class Builder(pq3.Connector):
	def __init__(self):
		pass

@harness('P16', ['driver.pq3.Transaction._start_xact_string'])
def start(v):
	"isolation and mode cannot smuggle further statements in"
	iso, mode = v.any('isolation', Opt(Text(alphabet='a ;'))), v.any('mode', Opt(Text(alphabet='a ;')))
	o, q = v.outcome(pq3.Transaction._start_xact_string, isolation=iso, mode=mode)
	bad = (iso is not None and ';' in iso) or (mode is not None and ';' in mode)
	if bad:
		v.check(o == 'raise' and type(q) is ValueError, 'refused')
	else:
		want = 'START TRANSACTION'
		if iso is not None:
			want = want + ' ISOLATION LEVEL ' + iso
		if mode is not None:
			want = want + ' ' + mode
		v.check(o == 'ok', 'accepted')
		sql(v, q, want + ';')
