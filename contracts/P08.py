from pyvc.api import *
from contracts.common import *
from contracts.common import _frame
from postgresql.protocol import element3 as E
from postgresql.python import structlib as S

PE, PS = pure('postgresql.protocol.element3'), pure('postgresql.python.structlib')
ROW = Seq(ATT, 'tuple', maxlen=65535, cap=9)

def mod(v):
	"proofs are about the Python text; both implementations are executed"
	return E if v.symbolic else (E, PE)[v.any('implementation', Choice(0, 1))]

@harness('P08', ['element3.Tuple.parse', 'element3.Tuple.serialize', 'element3.pack_tuple_data'])
def round_trip(v):
	M = mod(v)
	ts = v.any('fields', ROW)
	v.ghost(fields=ts)
	v.eq(M.pack_tuple_data(ts), ATTS(ts), 'layout')
	d = M.Tuple(ts).serialize()
	v.eq(d, be(2, size(ts)) + ATTS(ts), 'data row')
	v.eq(M.Tuple.parse(d), ts, 'fields')

def bent(r, s):
	"rows with something wrong"
	fs = [None if r.random() < .3 else bytes(r.randrange(256) for _ in range(r.choice((0, 1, 3, 8)))) for _ in range(r.randrange(5))]
	d = bytearray(len(fs).to_bytes(2, 'big') + b''.join(b'\xff' * 4 if f is None else len(f).to_bytes(4, 'big') + f for f in fs))
	for _ in range(r.randrange(3)):
		k = r.randrange(6)
		if k == 0: d = d[:r.randrange(len(d) + 1)]
		elif k == 1: d += bytes(r.randrange(256) for _ in range(r.randrange(1, 6)))
		elif k == 2 and d: d[r.randrange(len(d))] = r.choice((0, 1, 0x7f, 0x80, 0xff, 0xfe, r.randrange(256)))
		elif k == 3 and len(d) > 1: d[1] = (d[1] + r.choice((1, -1, 2))) % 256
		elif k == 4 and len(d) > 6: d[2:6] = r.choice((b'\xff\xff\xff\xfe', b'\x80\0\0\0', b'\x7f\xff\xff\xff', b'\xff\xff\xff\xfc', b'\0\0\0\xff', b'\0\xff\xff\xff'))
		elif k == 5: d[2:2] = b'\xff\xff\xff\xff'
	return bytes(d)
ANYROW = Search(Bytes(), bent)

@harness('P08', ['element3.Tuple.parse'], runs=6000)
def only_rows(v):
	"whatever the bytes: an error, or the row whose encoding they are"
	M = mod(v)
	d = v.any('data', ANYROW)
	v.ghost(data=d)
	o, x = v.outcome(M.Tuple.parse, d)
	if o == 'ok':
		v.eq(be(2, size(x)) + ATTS(x), d, 'exactly the encoding')
		v.check(type(x) is tuple or v.symbolic, 'a tuple')
	elif not v.symbolic:
		import struct
		v.check(isinstance(x, (ValueError, struct.error)), 'refused')
	else:
		v.cover('refused')

@harness('P08', ['port.optimized.parse_tuple_message', 'port.optimized.consume_tuple_messages', 'port.optimized.pack_tuple_data', 'element3.Tuple.parse', 'element3._pack_tuple', 'element3.cat_messages'],
	mode='sampled', runs=6000, bound='rows of at most 9 fields')
def agree(v):
	"the compiled and the Python implementation accept and produce the same"
	d = v.any('data', ANYROW)
	a, b = v.outcome(E.Tuple.parse, d), v.outcome(PE.Tuple.parse, d)
	v.check(a[0] == b[0], 'accept the same')
	if a[0] == 'ok':
		v.eq(tuple(a[1]), tuple(b[1]), 'read the same')
	ts = v.any('fields', ROW)
	v.eq(E.pack_tuple_data(ts), PE.pack_tuple_data(ts), 'write the same')
	v.eq(E.cat_messages([ts, d, ts]), PE.cat_messages([ts, d, ts]), 'write the same messages')
	v.eq(E.cat_messages([ts, d, ts]), _row(ts) + _frame((b'd', d)) + _row(ts), 'the documented messages')
	try:
		from postgresql.port.optimized import consume_tuple_messages
	except ImportError:
		return
	k = v.any('rows', Int(0, 4))
	ms = [(b'D', E.Tuple(ts).serialize())] * k
	t = v.any('type', Choice(b'C', b'd', b'Z', b'E'))
	v.eq(consume_tuple_messages(tuple(ms + [(t, d)] + ms)), [ts] * k, 'rows up to the first other message')
	v.eq(consume_tuple_messages(tuple(ms)), [ts] * k, 'rows')
	o, x = v.outcome(consume_tuple_messages, tuple(ms + [(b'D', d)]))
	v.check(o == a[0], 'refuses what the parser refuses')
	if o == 'ok':
		v.eq(x, [ts] * k + [tuple(a[1])], 'rows')
	for bad in ((1,), ('s',), (b'x', bytearray(b'y')), [b'l']):
		o, x = v.outcome(E.pack_tuple_data, bad)
		v.check(o == 'raise' and isinstance(x, TypeError), 'only bytes and NULL')
		o, x = v.outcome(E.cat_messages, [bad])
		v.check(o == 'raise', 'only bytes and NULL')
	for bad in ([], b'x', ((b'D',),), (5,), ((b'DD', d),), (('D', d),), ([b'D', d],)):
		o, x = v.outcome(consume_tuple_messages, bad)
		v.check(o == 'raise' and isinstance(x, TypeError), 'only pairs of bytes')

def _row(ts):
	p = be(2, size(ts)) + ATTS(ts)
	return _frame((b'D', p))

@harness('P08', ['structlib.split_sized_data'])
def split_round_trip(v):
	M = S if v.symbolic else (S, PS)[v.any('implementation', Choice(0, 1))]
	ts = v.any('fields', Seq(ATT, 'list', cap=9))
	v.ghost(fields=ts, yielded=True)
	v.eq(list(M.split_sized_data(ATTS(ts))), ts, 'fields')

@harness('P08', ['structlib.split_sized_data'], runs=4000)
def split_only_fields(v):
	"an error, or the fields whose encoding the data is"
	M = S if v.symbolic else (S, PS)[v.any('implementation', Choice(0, 1))]
	d = v.any('data', Search(Bytes(), lambda r, s: bent(r, s)[2:]))
	v.ghost(data=d)
	o, x = v.outcome(lambda: list(M.split_sized_data(d)))
	if o == 'ok':
		v.eq(ATTS(x), d, 'exactly the encoding')
	else:
		v.cover('refused')
