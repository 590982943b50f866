from pyvc.api import *
from contracts.common import *
from postgresql.protocol import element3 as E

MAXB = 65535

def framed(v, msg, typ, payload):
	"bytes() is the type byte, the length that counts itself, and the payload"
	v.eq(msg.bytes(), typ + be(4, size(payload) + 4) + payload, 'framing')

def rt(v, cls, typ, payload, msg):
	"serialisation is the documented layout, and is framed"
	s = msg.serialize()
	v.eq(s, payload, 'layout')
	v.assume(size(payload) < 2**31 - 16)
	framed(v, msg, typ, payload)
	return cls.parse(s)

@harness('P06', ['element3.Execute.serialize', 'element3.Execute.parse', 'element3.Message.bytes'])
def execute(v):
	n, m = v.any('name', NAME), v.any('max', U32)
	x = rt(v, E.Execute, b'E', n + b'\0' + be(4, m), E.Execute(n, m))
	v.eq(x.name, n, 'name')
	v.eq(x.max, m, 'max')

STRINGS = [(E.Query, b'Q', b''), (E.Password, b'p', b''), (E.CopyFail, b'f', b''),
	(E.DescribeStatement, b'D', b'S'), (E.DescribePortal, b'D', b'P'), (E.CloseStatement, b'C', b'S'), (E.ClosePortal, b'C', b'P')]

@harness('P06', ['element3.StringMessage.serialize', 'element3.StringMessage.parse', 'element3.Describe.serialize', 'element3.Describe.parse',
	'element3.Close.serialize', 'element3.Close.parse'])
def string_messages(v):
	k = v.any('kind', Choice(*range(len(STRINGS))))
	cls, typ, sub = STRINGS[k]
	d = v.any('data', NAME)
	x = rt(v, cls, typ, sub + d + b'\0', cls(d))
	v.eq(x.data, d, 'data')

@harness('P06', ['element3.StringMessage.parse', 'element3.Describe.parse', 'element3.Close.parse'])
def string_messages_reject(v):
	"payloads without terminator or with another subtype are refused"
	k = v.any('kind', Choice(*range(len(STRINGS))))
	cls, typ, sub = STRINGS[k]
	d = v.any('data', Bytes())
	o, r = v.outcome(cls.parse, d)
	ok = d.endswith(b'\0') and d.startswith(sub)
	if sub and size(d) == 1:
		ok = False
	if ok:
		v.check(o == 'ok', 'accepts')
		if o == 'ok':
			v.eq(sub + r.data + b'\0', d, 'content')
	else:
		v.check(o == 'raise' and isinstance(r, ValueError), 'refuses')

@harness('P06', ['element3.Complete.serialize', 'element3.Complete.parse'])
def complete(v):
	d = v.any('data', NAME)
	x = rt(v, E.Complete, b'C', d + b'\0', E.Complete(d))
	v.eq(x.data, d, 'data')

WS = frozenset(b' \t\n\r\x0b\x0c')
WORD = Bytes(free=WS | NUL | frozenset(b'0123456789'), minlen=1)
DIG = Bytes(allowed=b'0123456789', minlen=1)

@harness('P06', ['element3.Complete.extract_count', 'element3.Complete.extract_command'], mode='sampled', runs=4000,
	bound='command tags of up to 6 words')
def complete_tag(v):
	"the count is the last all-digit word of the tag; the command the text before"
	words = v.any('words', FixedSeq(WORD, range(1, 4)))
	nums = v.any('nums', FixedSeq(DIG, range(0, 4)))
	c = E.Complete(b' '.join(words + nums))
	v.eq(c.extract_command(), b' '.join(words), 'command')
	if nums:
		v.eq(c.extract_count(), int(nums[-1]), 'count')
	else:
		v.eq(c.extract_count(), None, 'no count')

EMPTY = [(E.Null, b'I'), (E.NoData, b'n'), (E.ParseComplete, b'1'), (E.BindComplete, b'2'), (E.CloseComplete, b'3'), (E.Suspension, b's'),
	(E.Disconnect, b'X'), (E.Flush, b'H'), (E.Synchronize, b'S'), (E.CopyDone, b'c')]

@harness('P06', ['element3.EmptyMessage.serialize', 'element3.EmptyMessage.parse', 'element3.EmptyMessage.__new__'])
def empty_messages(v):
	k = v.any('kind', Choice(*range(len(EMPTY))))
	cls, typ = EMPTY[k]
	m = cls.SingleInstance
	v.eq(m.serialize(), b'', 'layout')
	v.eq(m.bytes(), typ + b'\0\0\0\x04', 'framing')
	v.check(cls.parse(b'') is m, 'parse')
	v.check(m == m and not m != m, 'equals itself')
	d = v.any('data', Bytes(minlen=1))
	o, r = v.outcome(cls.parse, d)
	v.check(o == 'raise' and isinstance(r, ValueError), 'refuses data')

@harness('P06', ['element3.Notify.serialize', 'element3.Notify.parse'])
def notify(v):
	pid, ch, pl = v.any('pid', U32), v.any('channel', NAME), v.any('payload', NAME)
	x = rt(v, E.Notify, b'A', be(4, pid) + ch + b'\0' + pl + b'\0', E.Notify(pid, ch, pl))
	v.eq(x.pid, pid, 'pid')
	v.eq(x.channel, ch, 'channel')
	v.eq(x.payload, pl, 'payload')

@harness('P06', ['element3.ShowOption.serialize', 'element3.ShowOption.parse'])
def show_option(v):
	n, val = v.any('name', NAME), v.any('value', NAME)
	x = rt(v, E.ShowOption, b'S', n + b'\0' + val + b'\0', E.ShowOption(n, val))
	v.eq(x.name, n, 'name')
	v.eq(x.value, val, 'value')

@harness('P06', ['element3.Ready.serialize', 'element3.Ready.parse'])
def ready(v):
	s = v.any('state', Bytes(bias=(b'I', b'E', b'T')))
	o, x = v.outcome(E.Ready.parse, s)
	if s == b'I' or s == b'E' or s == b'T':
		v.check(o == 'ok', 'accepts')
		v.eq(x.xact_state, s, 'state')
		v.eq(x.bytes(), b'Z\0\0\0\x05' + s, 'framing')
	else:
		v.check(o == 'raise' and isinstance(x, ValueError), 'refuses')

@harness('P06', ['element3.FunctionResult.serialize', 'element3.FunctionResult.parse'])
def function_result(v):
	d = v.any('result', Opt(Bytes(maxlen=2**31 - 64)))
	x = rt(v, E.FunctionResult, b'V', _field(d), E.FunctionResult(d))
	v.eq(x.result, d, 'result')

def _field(d):
	return b'\xff\xff\xff\xff' if d is None else be(4, size(d)) + d

@harness('P06', ['element3.FunctionResult.parse'])
def function_result_reject(v):
	d = v.any('data', Bytes(minlen=4))
	o, x = v.outcome(E.FunctionResult.parse, d)
	if o == 'ok':
		v.eq(_field(x.result), d, 'only exact sizes')
	else:
		v.check(isinstance(x, ValueError), 'refuses')

@harness('P06', ['element3.AttributeTypes.serialize', 'element3.AttributeTypes.parse'])
def attribute_types(v):
	ts = v.any('types', Seq(U32, 'tuple', maxlen=MAXB))
	x = rt(v, E.AttributeTypes, b't', be(2, size(ts)) + U32S(ts), E.AttributeTypes(ts))
	v.eq(tuple(x), ts, 'types')

@harness('P06', ['element3.AttributeTypes.parse'])
def attribute_types_reject(v):
	n = v.any('count', U16)
	d = v.any('data', Bytes())
	v.assume(size(d) != 4 * n)
	o, x = v.outcome(E.AttributeTypes.parse, be(2, n) + d)
	v.check(o == 'raise' and isinstance(x, ValueError), 'refuses')

ATTR = Tup(NAME, U32, I16, U32, I16, I32, I16)

@harness('P06', ['element3.TupleDescriptor.serialize', 'element3.TupleDescriptor.parse'])
def tuple_descriptor(v):
	ts = v.any('attributes', Seq(ATTR, 'tuple', maxlen=MAXB))
	v.ghost(fields=ts)
	x = rt(v, E.TupleDescriptor, b'T', be(2, size(ts)) + TDESC(ts), E.TupleDescriptor(ts))
	v.eq(tuple(x), ts, 'attributes')

@harness('P06', ['element3.Tuple.serialize', 'element3.Tuple.parse', 'element3.pack_tuple_data'])
def data_row(v):
	ts = v.any('fields', Seq(ATT, 'tuple', maxlen=MAXB))
	v.ghost(fields=ts)
	x = rt(v, E.Tuple, b'D', be(2, size(ts)) + ATTS(ts), E.Tuple(ts))
	v.eq(tuple(x), ts, 'fields')

@harness('P06', ['element3.KillInformation.serialize', 'element3.KillInformation.parse'])
def kill_information(v):
	p, k = v.any('pid', U32), v.any('key', U32)
	x = rt(v, E.KillInformation, b'K', be(4, p) + be(4, k), E.KillInformation(p, k))
	v.eq(x.pid, p, 'pid')
	v.eq(x.key, k, 'key')

@harness('P06', ['element3.CancelRequest.serialize', 'element3.CancelRequest.bytes', 'element3.CancelRequest.parse', 'version.Version.bytes'])
def cancel_request(v):
	p, k = v.any('pid', U32), v.any('key', U32)
	m = E.CancelRequest(p, k)
	body = b'\x04\xd2\x16\x2e' + be(4, p) + be(4, k)
	v.eq(m.bytes(), b'\0\0\0\x10' + body, 'framing')
	x = E.CancelRequest.parse(m.serialize())
	v.eq(x.pid, p, 'pid')
	v.eq(x.key, k, 'key')
	d = v.any('data', Bytes(length=12))
	if not d.startswith(b'\x04\xd2\x16\x2e'):
		o, r = v.outcome(E.CancelRequest.parse, d)
		v.check(o == 'raise' and isinstance(r, ValueError), 'refuses another code')

@harness('P06', ['element3.NegotiateSSL.bytes', 'element3.NegotiateSSL.parse'])
def negotiate_ssl(v):
	m = E.NegotiateSSL()
	v.eq(m.bytes(), b'\0\0\0\x08\x04\xd2\x16\x2f', 'framing')
	d = v.any('data', Bytes(bias=(b'\x04\xd2\x16\x2f',)))
	o, r = v.outcome(E.NegotiateSSL.parse, d)
	if d == b'\x04\xd2\x16\x2f':
		v.check(o == 'ok' and r is m, 'accepts')
	else:
		v.check(o == 'raise' and isinstance(r, ValueError), 'refuses')

@harness('P06', ['element3.Startup.serialize', 'element3.Startup.bytes', 'element3.Startup.parse'], mode='bounded', bound='at most 3 parameters')
def startup(v):
	ks = v.any('keys', FixedSeq(Bytes(free=NUL, minlen=1), (0, 1, 2, 3)))
	vs = [v.any('value%d' % i, Bytes(free=NUL, minlen=1)) for i in range(len(ks))]
	for i in range(len(ks)):
		for j in range(i):
			v.assume(ks[i] != ks[j])
	m = E.Startup([(ks[i], vs[i]) for i in range(len(ks))])
	body = b'\0\x03\0\0'
	for i in range(len(ks)):
		body = body + ks[i] + b'\0' + vs[i] + b'\0'
	body = body + b'\0'
	v.eq(m.serialize(), body, 'layout')
	v.assume(size(body) < 2**31)
	v.eq(m.bytes(), be(4, size(body) + 4) + body, 'framing')
	x = E.Startup.parse(m.serialize())
	v.check(len(x) == len(ks), 'number of parameters')
	for i in range(len(ks)):
		v.eq(x[ks[i]], vs[i], 'parameter')

@harness('P06', ['element3.Authentication.serialize', 'element3.Authentication.parse'])
def authentication(v):
	r, s = v.any('request', U32), v.any('salt', Bytes())
	x = rt(v, E.Authentication, b'R', be(4, r) + s, E.Authentication(r, s))
	v.eq(x.request, r, 'request')
	v.eq(x.salt, s, 'salt')

@harness('P06', ['element3.Parse.serialize', 'element3.Parse.parse'])
def parse(v):
	n, s, ts = v.any('name', NAME), v.any('statement', NAME), v.any('types', Seq(U32, 'tuple', maxlen=MAXB))
	x = rt(v, E.Parse, b'P', n + b'\0' + s + b'\0' + be(2, size(ts)) + U32S(ts), E.Parse(n, s, ts))
	v.eq(x.name, n, 'name')
	v.eq(x.statement, s, 'statement')
	v.eq(tuple(x.argtypes), ts, 'types')

@harness('P06', ['element3.Bind.serialize', 'element3.Bind.parse', 'element3.pack_tuple_data'])
def bind(v):
	n, s = v.any('name', NAME), v.any('statement', NAME)
	args = v.any('arguments', Seq(ATT, 'list', maxlen=MAXB))
	af = v.any('aformats', Seq(FMT, 'tuple', maxlen=MAXB))
	rf = v.any('rformats', Seq(FMT, 'tuple', maxlen=MAXB))
	if not v.symbolic:
		af = (af * (len(args) + 1))[:len(args)] if af else (b'\0\1',) * len(args)
	v.assume(size(af) == size(args))
	v.ghost(fields=args)
	payload = n + b'\0' + s + b'\0' + be(2, size(args)) + CAT(af) + be(2, size(args)) + ATTS(args) + be(2, size(rf)) + CAT(rf)
	x = rt(v, E.Bind, b'B', payload, E.Bind(n, s, af, args, rf))
	v.eq(x.name, n, 'name')
	v.eq(x.statement, s, 'statement')
	v.eq(tuple(x.aformats), af, 'argument formats')
	v.eq(x.arguments, args, 'arguments')
	v.eq(tuple(x.rformats), rf, 'result formats')

@harness('P06', ['element3.Function.serialize', 'element3.Function.parse'])
def function(v):
	oid = v.any('oid', U32)
	args = v.any('arguments', Seq(ATT, 'list', maxlen=MAXB))
	af = v.any('aformats', Seq(FMT, 'tuple', maxlen=MAXB))
	rf = v.any('rformat', FMT)
	if not v.symbolic:
		af = (af * (len(args) + 1))[:len(args)] if af else (b'\0\1',) * len(args)
	v.assume(size(af) == size(args))
	v.ghost(fields=args)
	payload = be(4, oid) + be(2, size(args)) + CAT(af) + be(2, size(args)) + ATTS(args) + rf
	x = rt(v, E.Function, b'F', payload, E.Function(oid, af, args, rf))
	v.eq(x.oid, oid, 'oid')
	v.eq(tuple(x.aformats), af, 'argument formats')
	v.eq(x.arguments, args, 'arguments')
	v.eq(x.rformat, rf, 'result format')

@harness('P06', ['element3.CopyBegin.serialize', 'element3.CopyBegin.parse'])
def copy_begin(v):
	k = v.any('kind', Choice(0, 1))
	cls, typ = ((E.CopyToBegin, b'H'), (E.CopyFromBegin, b'G'))[k]
	f, fs = v.any('format', U8), v.any('formats', Seq(U16, 'list', maxlen=MAXB))
	m = cls(f, fs)
	payload = be(1, f) + be(2, size(fs)) + U16S(fs)
	v.eq(m.serialize(), payload, 'layout')
	framed(v, m, typ, payload)

@harness('P06', ['element3.CopyBegin.parse'], mode='bounded', bound='at most 6 column formats')
def copy_begin_parse(v):
	f, fs = v.any('format', U8), v.any('formats', FixedSeq(U16, range(7), 'list'))
	x = E.CopyToBegin.parse(be(1, f) + be(2, len(fs)) + b''.join([be(2, z) for z in fs]))
	v.eq(x.format, f, 'format')
	v.eq(x.formats, fs, 'formats')

@harness('P06', ['element3.CopyData.serialize', 'element3.CopyData.parse'])
def copy_data(v):
	d = v.any('data', Bytes())
	x = rt(v, E.CopyData, b'd', d, E.CopyData(d))
	v.eq(x.data, d, 'data')

FIELD = Tup(Choice(*[bytes((c,)) for c in b'SVCMDHPpqWstcdnFLR']), Bytes(free=NUL))

@harness('P06', ['element3.Notice.serialize', 'element3.Notice.parse', 'element3.Error'], mode='bounded', bound='at most 3 fields', paths=9000)
def notice(v):
	"every field survives, including those with an empty value"
	cls, typ = ((E.Notice, b'N'), (E.Error, b'E'))[v.any('kind', Choice(0, 1))]
	ks = v.any('codes', Choice((), (b'S',), (b'M', b'C'), (b'C', b'S', b'V'), (b'D', b'H', b'P')))
	m = cls([(k, v.any('value%d' % i, NAME)) for i, k in enumerate(ks)])
	s = m.serialize()
	v.assume(size(s) < 2**31)
	want = b''
	for k in ks:
		want = want + k + m[k] + b'\0'
	v.eq(s, want + b'\0', 'fields, then the terminator')
	v.eq(m.bytes(), typ + be(4, size(s) + 4) + s, 'framing')
	x = cls.parse(s)
	v.check(len(x) == len(ks), 'number of fields')
	for i, k in enumerate(ks):
		v.eq(x[k], m[k], 'field')

SATT = Opt(Bytes(maxlen=2**28))
ITEM = Choice(Bytes(maxlen=2**31 - 64), Tup(), Tup(SATT), Tup(SATT, SATT), Tup(SATT, SATT, SATT))

def _item(x):
	if isinstance(x, tuple):
		r = be(2, len(x))
		for f in x:
			r = r + _field(f)
		return b'D' + be(4, size(r) + 4) + r
	return b'd' + be(4, size(x) + 4) + x
ITEMS = Hom('spec-items', 'bytes', _item)

@harness('P06', ['element3.cat_messages', 'element3._pack_tuple', 'element3.Message.bytes'])
def cat_messages(v):
	"concatenation: raw bytes are copy data, tuples are data rows, messages their own bytes"
	xs = v.any('items', Seq(ITEM, 'list'))
	before = E.cat_messages([E.Execute(b'p', 1), E.SynchronizeMessage])
	v.eq(before, b'E\0\0\0\x0ap\0\0\0\0\x01' + b'S\0\0\0\x04', 'messages')
	r = E.cat_messages(xs)
	v.eq(r, ITEMS(xs), 'items')
