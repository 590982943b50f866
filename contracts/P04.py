import itertools, struct
from pyvc.api import *
from contracts.common import *
from contracts.common import _field
from postgresql.types.io import lib, contrib_hstore
from postgresql.types import Array, Row

def _elem(x):
	"an element or field on the wire: -1, or length and content"
	return b'\xff\xff\xff\xff' if x is None else be(4, size(x)) + x
FIELD = Tup(U32, ATT)
RECORD = Seq(FIELD, 'tuple', maxlen=2**31 - 1, cap=9)
I4 = Int(-2**31, 2**31 - 1, bias=(0, 1, 2, -1))

def bent(enc):
	"data with something wrong"
	def rnd(r, size_):
		d = bytearray(enc(r))
		for _ in range(r.randrange(3)):
			k = r.randrange(5)
			if k == 0: d = d[:r.randrange(len(d) + 1)]
			elif k == 1: d += bytes(r.randrange(256) for _ in range(r.randrange(1, 6)))
			elif k == 2 and d: d[r.randrange(len(d))] = r.choice((0, 1, 0x7f, 0x80, 0xff, 0xfe, r.randrange(256)))
			elif len(d) >= 4:
				i = r.randrange(0, len(d) - 3, 4) if len(d) > 4 else 0
				d[i:i + 4] = r.choice((b'\xff\xff\xff\xfe', b'\x80\0\0\0', b'\x7f\xff\xff\xff', b'\xff\xff\xff\xfc', b'\0\0\0\xff', b'\xff\xff\xff\xff', b'\xff\xff\xff\xf8', b'\0\0\0\1'))
		return bytes(d)
	return rnd
def rand_att(r):
	return None if r.random() < .3 else bytes(r.randrange(256) for _ in range(r.choice((0, 1, 3, 4, 8))))
def enc_elems(r):
	return b''.join([_elem(rand_att(r)) for _ in range(r.randrange(5))])
def enc_record(r):
	fs = [(r.choice((23, 25, 2**32 - 1)), rand_att(r)) for _ in range(r.randrange(4))]
	return len(fs).to_bytes(4, 'big') + b''.join(map(_field, fs))

# ---- records
@harness('P04', ['types.io.lib.record_pack'])
def record_layout(v):
	"the number of fields, and each field's type and content"
	fs = v.any('fields', RECORD)
	v.eq(lib.record_pack(fs), be(4, size(fs)) + FIELDS(fs), 'layout')

@harness('P04', ['types.io.lib.record_unpack'])
def record_round_trip(v):
	fs = v.any('fields', RECORD)
	v.ghost(fields=fs)
	v.eq(tuple(lib.record_unpack(be(4, size(fs)) + FIELDS(fs))), fs, 'fields')

@harness('P04', ['types.io.lib.record_unpack'], runs=8000)
def only_records(v):
	"whatever the bytes: an error, or the record whose encoding they are"
	d = v.any('data', Search(Bytes(), bent(enc_record)))
	v.ghost(data=d)
	o, x = v.outcome(lambda: tuple(lib.record_unpack(d)))
	if o == 'ok':
		v.eq(be(4, size(x)) + FIELDS(x), d, 'exactly the encoding')
	elif not v.symbolic:
		v.check(isinstance(x, (ValueError, struct.error)), 'refused')
	else:
		v.cover('refused')

# ---- arrays
@harness('P04', ['types.io.lib.elements_pack'])
def elements_layout(v):
	es = v.any('elements', Seq(ATT, cap=9))
	v.ghost(elements=es)
	v.eq(b''.join(lib.elements_pack(es)), ATTS(es), 'layout')

@harness('P04', ['types.io.lib.elements_unpack'])
def elements_round_trip(v):
	es = v.any('elements', Seq(ATT, cap=9))
	head = v.any('before', Bytes())
	v.ghost(elements=es)
	v.eq(list(lib.elements_unpack(head + ATTS(es), size(head))), es, 'elements')

@harness('P04', ['types.io.lib.elements_unpack'], runs=8000)
def only_elements(v):
	"an error, or the elements whose encoding the data is"
	d = v.any('data', Search(Bytes(), bent(enc_elems)))
	v.ghost(data=d)
	o, x = v.outcome(lambda: list(itertools.islice(lib.elements_unpack(d, 0), 10 ** 5)) if not v.symbolic else list(lib.elements_unpack(d, 0)))
	if o == 'ok':
		v.eq(ATTS(x), d, 'exactly the encoding')
	elif not v.symbolic:
		v.check(isinstance(x, (ValueError, struct.error)), 'refused')
	else:
		v.cover('refused')

def _header(v):
	n = v.any('axes', Choice(*range(7)))
	dims = [v.any('dimension %d' % i, I4) for i in range(n)]
	lows = [v.any('lower bound %d' % i, I4) for i in range(n)]
	flags, oid = v.any('flags', I4), v.any('type', U32)
	w = be(4, n) + be(4, flags) + be(4, oid)
	for x, l in zip(dims, lows):
		w = w + be(4, x) + be(4, l)
	return flags, oid, dims, lows, w

@harness('P04', ['types.io.lib.array_pack', 'types.io.lib.elements_pack'])
def array_layout(v):
	"dimensions, flags, type; each axis; the elements. At most the 6 axes of the server"
	flags, oid, dims, lows, w = _header(v)
	es = v.any('elements', Seq(ATT, cap=9))
	v.ghost(elements=es)
	v.eq(lib.array_pack((flags, oid, dims, lows, es)), w + ATTS(es), 'layout')

@harness('P04', ['types.io.lib.array_unpack', 'types.io.lib.elements_unpack'])
def array_round_trip(v):
	flags, oid, dims, lows, w = _header(v)
	es = v.any('elements', Seq(ATT, cap=9))
	v.ghost(elements=es)
	f, o, ds, ls, xs = lib.array_unpack(w + ATTS(es))
	v.eq((f, o, ds, ls), (flags, oid, dims, lows), 'header')
	v.eq(list(xs), es, 'elements')

@harness('P04', ['types.io.lib.array_unpack'], runs=3000)
def bad_arrays(v):
	"a negative number of axes is refused"
	n = v.any('axes', Int(-2**31, -1))
	rest = v.any('rest', Bytes(minlen=8))
	r = v.outcome(lambda: lib.array_unpack(be(4, n) + rest))
	v.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'refused')

# ---- the converters of a connection
class Sys(object):
	"the catalog"
	types = {
		# oid: namespace, name, type, len, elem, relid, array element type, binary input, binary output
		1007: ('pg_catalog', '_int4', b'b', -1, 23, 0, 23, True, True),
		1009: ('pg_catalog', '_text', b'b', -1, 25, 0, 25, True, True),
		50001: ('public', 'pair', b'c', -1, 0, 60001, None, True, True),
		50002: ('public', '_pair', b'b', -1, 50001, 0, 50001, True, True),
		50003: ('public', 'tri', b'c', -1, 0, 60003, None, True, True),
		50004: ('public', 'posint', b'd', -1, 0, 0, None, True, True),
		50005: ('public', '_posint', b'b', -1, 50004, 0, 50004, True, True),
		50006: ('public', 'mood', b'e', 4, 0, 0, None, True, True),
		50007: ('public', '_mood', b'b', -1, 50006, 0, 50006, True, True),
		50008: ('public', 'ints', b'd', -1, 0, 0, None, True, True),
		50009: ('public', 'ints2', b'd', -1, 0, 0, None, True, True),
		50010: ('public', 'feeling', b'c', -1, 0, 60010, None, True, True),
		50011: ('public', 'loop', b'c', -1, 0, 60011, None, True, True),
		2249: ('pg_catalog', 'record', b'p', -1, 0, 0, None, True, True),
	}
	composites = {
		60001: [(23, 'a', False), (25, 'b', False)],
		60003: [(50001, 'p', False), (1007, 'xs', False), (50004, 'n', True), (25, 't', False)],
		60010: [(50006, 'm', False), (50009, 'i2', True), (50007, 'ms', False), (50001, 'p', False)],
		60011: [(23, 'n', False), (50011, 'again', False)],
	}
	bases = {50004: 23, 50008: 1007, 50009: 50008}
	def lookup_type(self, oid):
		return self.types.get(oid)
	def lookup_composite(self, relid):
		return self.composites[relid]
	def lookup_basetype(self, oid):
		return [[self.bases.get(oid, 0)]]
	def lookup_basetype_recursive(self, oid):
		while oid in self.bases:
			oid = self.bases[oid]
		return [[oid]]
ARRAYS = (1007, 1009, 50002, 50005, 50007, 50008, 50009)
class Db(object):
	sys = Sys()
	version_info = (9, 0, 0)
	_e_metas = None

def typio(version=(9, 0, 0)):
	from postgresql.driver import pq3
	db = Db()
	db.version_info = version
	t = pq3.TypeIO(db)
	t.set_encoding('utf-8')
	return t

def rand_value(r, oid, depth=0):
	if r.random() < 0.15:
		return None
	return rand_some(r, oid, depth)
def rand_some(r, oid, depth=0):
	if oid in (23, 50004):
		return r.choice((0, 1, -1, 2**31 - 1, -2**31, r.randint(-9999, 9999)))
	if oid in Sys.bases:
		return rand_some(r, Sys.bases[oid], depth)
	if oid == 50006:
		return r.choice(('happy', 'sad', '\u00e9'))
	if oid == 25:
		return r.choice(('', 'a', "it's", '\u00e9\u20ac', 'NULL', '{1,2}', 'x' * 20))
	if oid in ARRAYS:
		el = Sys.types[oid][4]
		shape = r.choice(((), (1,), (3,), (2, 2), (1, 2, 3), (2, 1), (1, 1, 1, 1, 1, 2)))
		n = 1
		for x in shape:
			n *= x
		es = [rand_value(r, el) for _ in range(n)] if shape else []
		lows = [r.choice((1, 1, 0, -3, 7)) for _ in shape]
		return ('array', es, list(shape), lows)
	return ('record', [rand_value(r, t) for t, k, dom in Sys.composites[Sys.types[oid][5]]])

def build(x):
	if isinstance(x, tuple) and x[0] == 'array':
		return Array.from_elements([build(e) for e in x[1]], lowerbounds=x[3], upperbounds=[l + d - 1 for l, d in zip(x[3], x[2])])
	if isinstance(x, tuple):
		return tuple([build(e) for e in x[1]])
	return x
def wire(x, oid):
	if oid in Sys.bases:
		return wire(x, Sys.bases[oid])
	if oid == 23:
		return struct.pack('!l', x)
	if oid in (25, 50006):
		return x.encode('utf-8')
	if x[0] == 'array':
		el = Sys.types[oid][4]
		return struct.pack('!llL', len(x[2]), 0, el) + b''.join([struct.pack('!ll', d, l) for d, l in zip(x[2], x[3])]) + b''.join([_elem(None if e is None else wire(e, el)) for e in x[1]])
	ts = [t for t, k, dom in Sys.composites[Sys.types[oid][5]]]
	return struct.pack('!l', len(ts)) + b''.join([_field((t, None if e is None else wire(e, t))) for t, e in zip(ts, x[1])])
def agree(v, got, x):
	if isinstance(x, tuple) and x[0] == 'array':
		v.check(type(got) is Array, 'an array')
		v.eq(got.dimensions, tuple(x[2]), 'dimensions')
		v.eq(got.lowerbounds, tuple(x[3]), 'lower bounds')
		gs = list(got.elements())
		v.eq(len(gs), len(x[1]), 'number of elements')
		for g, e in zip(gs, x[1]):
			agree(v, g, e)
	elif isinstance(x, tuple):
		v.eq(len(got), len(x[1]), 'number of fields')
		for g, e in zip(got, x[1]):
			agree(v, g, e)
	else:
		v.eq(got, x, 'value')

ROOTS = (1007, 1009, 50001, 50002, 50003, 50005, 50007, 50008, 50009, 50010)
@harness('P04', ['driver.pq3.TypeIO.array_io_factory', 'driver.pq3.TypeIO.record_io_factory', 'driver.pq3.TypeIO.anon_record_io_factory', 'driver.pq3.TypeIO.resolve', 'driver.pq3.TypeIO.array_parts', 'driver.pq3.TypeIO.array_from_parts'],
	mode='sampled', runs=4000, bound='sampled nestings of arrays and composites')
def converters(v):
	"arrays and composites of a connection, nested, with their NULLs"
	oid = v.any('type', Choice(*ROOTS))
	x = v.any('value', Search('value', lambda r, size_: rand_some(r, oid)))
	v.assume(x[0] == ('array' if oid in ARRAYS else 'record'))
	t = typio(v.any('version', Choice((9, 0, 0), (8, 3, 0), (13, 1))))
	pack, unpack = t.resolve(oid)[:2]
	d = pack(build(x))
	v.eq(bytes(d), wire(x, oid), 'wire')
	agree(v, unpack(d), x)
	if x[0] == 'record':
		g = unpack(d)
		names = [k for t_, k, dom in Sys.composites[Sys.types[oid][5]]]
		for i, k in enumerate(names):
			v.check(g[k] is g[i], 'by name')
		v.eq(bytes(pack({k: e for k, e in zip(names, build(x)) if e is not None})), wire(x, oid), 'from a mapping')
		a = t.resolve(2249)[1](d)
		agree(v, a, x)
	cut = v.any('cut', Int(1, 10))
	r = v.outcome(unpack, d[:max(0, len(d) - cut)])
	if not (x[0] == 'array' and x[2] == [] and False):
		v.check(r[0] == 'raise', 'a truncated container is refused')
	r = v.outcome(unpack, d + b'\0\0\0\0')
	v.check(r[0] == 'raise', 'more than announced is refused')

@harness('P04', ['driver.pq3.TypeIO.resolve'], mode='sampled', runs=50, bound='a type containing itself, types without an entry')
def unresolvable(v):
	"a row type that contains itself is refused; a type the catalog does not know is text"
	t = typio()
	o, x = v.outcome(t.resolve, 50011)
	v.check(o == 'raise' and type(x) is TypeError, 'refused')
	v.check(t.resolve_pack(99999) == t.encode and t.resolve_unpack(99999) == t.decode, 'text')
	v.check(t.resolve_pack(50006) == t.encode and t.resolve_unpack(50006) == t.decode, 'an enumeration is text')
	n = v.any('n', Int(-2**31, 2**31 - 1))
	v.eq((t.resolve(50004)[0](n), t.resolve(50004)[1](struct.pack('!l', n))), (struct.pack('!l', n), n), 'a domain is its base type')

@harness('P04', ['driver.pq3.TypeIO.array_io_factory'], mode='sampled', runs=500, bound='sampled nested lists')
def nested_lists(v):
	"nested lists are arrays with lower bounds of one"
	shape = v.any('shape', Choice((1,), (3,), (2, 2), (1, 2, 3), (2, 1)))
	n = 1
	for x in shape:
		n *= x
	es = list(range(n))
	l = list(es)
	for d in reversed(shape[1:]):
		l = [l[i:i + d] for i in range(0, len(l), d)]
	pack, unpack = typio().resolve(1007)[:2]
	d = pack(l)
	v.eq(bytes(d), wire(('array', es, list(shape), [1] * len(shape)), 1007), 'wire')
	v.eq(unpack(d).nest(), l, 'nested')

# ---- hstore
@harness('P04', ['types.io.contrib_hstore.hstore_factory'], mode='sampled', runs=6000, bound='sampled maps')
def hstore(v):
	"the number of pairs; keys and values"
	def rand(r, size_):
		return [(r.choice(('', 'a', 'b', '\u00e9', 'key')) + str(i), r.choice((None, '', 'x', '\u20ac', 'NULL'))) for i in range(r.randint(0, 5))]
	m = v.any('pairs', Search('pairs', rand))
	t = typio()
	pack, unpack = contrib_hstore.hstore_factory(0, t)
	w = struct.pack('!L', len(m)) + b''.join([_elem(k.encode('utf-8')) + _elem(None if x is None else x.encode('utf-8')) for k, x in m])
	v.eq(bytes(pack(dict(m))), w, 'wire')
	v.eq(bytes(pack(list(m))), w, 'wire of pairs')
	v.eq(unpack(w), dict(m), 'pairs')
	for n in (len(m) + 1, len(m) - 1):
		if n >= 0:
			r = v.outcome(unpack, struct.pack('!L', n) + w[4:])
			v.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'another number of pairs is refused')
	cut = v.any('cut', Int(1, 8))
	if m:
		r = v.outcome(unpack, w[:max(0, len(w) - cut)])
		v.check(r[0] == 'raise', 'a truncated map is refused')
	r = v.outcome(unpack, w + _elem(b'k'))
	v.check(r[0] == 'raise', 'a key without a value is refused')

# ---- vectors
@harness('P04', ['types.io.lib.oidvector_pack', 'types.io.lib.int2vector_pack'], mode='bounded', bound='at most 4 numbers')
def vectors(v):
	n = v.any('n', Choice(*range(5)))
	xs = [v.any('oid %d' % i, U32) for i in range(n)]
	ys = [v.any('number %d' % i, I16) for i in range(n)]
	v.eq(lib.oidvector_unpack(lib.oidvector_pack(xs)), tuple(xs + [0] * (32 - n)), 'oids')
	v.eq(lib.int2vector_unpack(lib.int2vector_pack(ys)), tuple(ys + [0] * (32 - n)), 'numbers')
