import ipaddress, itertools, struct, uuid
from pyvc.api import *
from contracts.common import *
from postgresql.types.io import lib, pg_bitwise, pg_network, pg_geometry, stdlib_uuid, stdlib_jsonb
from postgresql.types.bitwise import Varbit, Bit, OneBit, ZeroBit
from postgresql.types.geometry import Point, Lseg, Box, Circle

F8 = Float(8)
def f8(x):
	if is_symbolic():
		from pyvc.models import SFloat
		from pyvc.sym import be_pack
		if type(x) is SFloat:
			return be_pack(8, x.bits)
	return struct.pack('!d', x)

# ---- bit strings
@harness('P05', ['types.io.pg_bitwise.varbit_pack', 'types.io.pg_bitwise.varbit_unpack', 'types.io.lib.varbit_pack', 'types.io.lib.varbit_unpack'])
def bit_strings(v):
	"the number of bits and the bits"
	data = v.any('data', Bytes(minlen=1, maxlen=2**28 - 1))
	n = size(data) * 8 - v.any('bits unused', Choice(*range(8)))
	x = Varbit.from_bits(n, data)
	w = be(4, n) + (data if n != 1 else (b'\x80' if data[0] >= 128 else b'\0'))
	v.eq(pg_bitwise.varbit_pack(x), w, 'wire')
	y = pg_bitwise.varbit_unpack(w)
	v.eq((y.bits, y.data), (x.bits, x.data), 'back')
	v.check((n == 1) == (type(y) is Bit), 'one bit')

@harness('P05', ['types.io.pg_bitwise.varbit_pack', 'types.io.pg_bitwise.varbit_unpack'], runs=50)
def no_bits(v):
	v.eq(pg_bitwise.varbit_pack(Varbit('')), b'\0\0\0\0', 'wire')
	x = pg_bitwise.varbit_unpack(b'\0\0\0\0')
	v.eq((x.bits, x.data), (0, b''), 'back')

# ---- geometry
@harness('P05', ['types.io.lib.point_pack', 'types.io.lib.point_unpack', 'types.geometry.Point.__new__', 'types.io.pg_geometry'])
def points(v):
	a, b = v.any('x', F8), v.any('y', F8)
	w = f8(a) + f8(b)
	v.eq(pg_geometry.point_pack(Point((a, b))), w, 'wire')
	p = pg_geometry.point_unpack(w)
	v.check(type(p) is Point, 'a point')
	v.eq((p.x, p.y), (a, b), 'back')

def four(v):
	return [v.any(n, F8) for n in ('x1', 'y1', 'x2', 'y2')]

@harness('P05', ['types.io.pg_geometry.lseg_pack', 'types.geometry.Lseg.__new__', 'types.io.pg_geometry.two_pair'])
def segments(v):
	a, b, c, d = four(v)
	w = f8(a) + f8(b) + f8(c) + f8(d)
	v.eq(pg_geometry.lseg_pack(Lseg(((a, b), (c, d)))), w, 'wire')
	s = pg_geometry.lseg_unpack(w)
	v.check(type(s) is Lseg and type(s.one) is Point and type(s.two) is Point, 'a segment')
	v.eq((s.one.x, s.one.y, s.two.x, s.two.y), (a, b, c, d), 'back')

@harness('P05', ['types.io.pg_geometry.box_pack', 'types.geometry.Box.__new__'])
def boxes(v):
	"the high corner first"
	a, b, c, d = four(v)
	for x in (a, b, c, d):
		v.assume(x == x)
	w = f8(a) + f8(b) + f8(c) + f8(d)
	x = pg_geometry.box_unpack(w)
	v.check(type(x) is Box and type(x.high) is Point and type(x.low) is Point, 'a box')
	hx, lx = (a, c) if a >= c else (c, a)
	hy, ly = (b, d) if b >= d else (d, b)
	v.check(x.high.x == hx and x.low.x == lx and x.high.y == hy and x.low.y == ly, 'corners')
	if a > c and b > d:
		v.eq(pg_geometry.box_pack(x), w, 'wire')
		v.eq(pg_geometry.box_pack(((a, b), (c, d))), w, 'wire of pairs')
		y = Box(((c, b), (a, d)))
		v.eq((y.high.x, y.high.y, y.low.x, y.low.y), (a, b, c, d), 'corners arranged')

@harness('P05', ['types.io.pg_geometry.circle_pack', 'types.io.pg_geometry.circle_unpack', 'types.geometry.Circle.__new__'])
def circles(v):
	a, b, r = v.any('x', F8), v.any('y', F8), v.any('radius', F8)
	w = f8(a) + f8(b) + f8(r)
	o, x = v.outcome(lambda: pg_geometry.circle_unpack(w))
	if r < 0.0:
		v.check(o == 'raise' and isinstance(x, ValueError), 'a negative radius')
	else:
		v.eq(o, 'ok', 'a circle')
		v.check(type(x) is Circle and type(x.center) is Point, 'type')
		v.eq((x.center.x, x.center.y, x.radius), (a, b, r), 'back')
		v.eq(pg_geometry.circle_pack(x), w, 'wire')

# ---- addresses
class Address(object):
	"what the packers use of an address"
	def __init__(self, version, packed, prefixlen=None):
		self.version, self.packed, self.prefixlen = version, packed, prefixlen
		self.network_address = self
def same(x):
	return x

@harness('P05', ['types.io.lib.net_pack', 'types.io.lib.net_unpack', 'types.io.pg_network.inet_pack', 'types.io.pg_network.cidr_pack'])
def network_layout(v):
	"family, significant bits, whether a network, size, bytes"
	n, version, family = v.any('version', Choice((4, 4, 2), (16, 6, 3)))
	d = v.any('bytes', Bytes(length=n))
	bits = v.any('bits', Int(0, 128))
	v.assume(bits <= 8 * n)
	v.eq(pg_network.inet_pack(Address(version, d), Constructor=same), bytes((family, 8 * n, 0, n)) + d, 'address')
	w = be(1, family) + be(1, bits) + be(1, 1) + be(1, n) + d
	v.eq(pg_network.cidr_pack(Address(version, d, bits), Constructor=same), w, 'network')
	v.eq(lib.net_pack((version, bits, d)), w, 'packed')
	v.eq(lib.net_unpack(w), (version, bits, d), 'unpacked')

@harness('P05', ['types.io.lib.net_unpack', 'types.io.pg_network.inet_unpack'], runs=4000)
def bad_networks(v):
	"only addresses of the size of their family"
	f, m, c, n = [v.any(k, U8) for k in ('family', 'bits', 'network', 'size')]
	d = v.any('bytes', Search(Bytes(), lambda r, size: bytes(r.randrange(256) for _ in range(r.choice((4, 16, 4, 16, 0, 3, 5, 15, 17))))))
	o = v.outcome(lambda: lib.net_unpack(be(1, f) + be(1, m) + be(1, c) + be(1, n) + d))
	good = ((f == 2 and n == 4) or (f == 3 and n == 16)) and size(d) == n
	v.eq(o[0], 'ok' if good else 'raise', 'accepted')
	if good:
		v.eq(o[1], (4 if f == 2 else 6, m, d), 'parts')

def rand_ip(r, size=0):
	n = r.choice((4, 16))
	return bytes(r.choice((0, 255, 127, 1, r.randrange(256))) for _ in range(n))
@harness('P05', ['types.io.pg_network.inet_pack', 'types.io.pg_network.inet_unpack', 'types.io.pg_network.cidr_pack', 'types.io.pg_network.cidr_unpack'],
	mode='sampled', runs=6000, bound='sampled addresses and networks')
def networks(v):
	d = v.any('bytes', Search('bytes', rand_ip))
	a = ipaddress.ip_address(d)
	fam = 2 if len(d) == 4 else 3
	w = bytes((fam, 8 * len(d), 0, len(d))) + d
	for x in (a, str(a), d):
		v.eq(pg_network.inet_pack(x), w, 'address')
	v.eq(pg_network.inet_unpack(w), a, 'address back')
	bits = v.any('bits', Int(0, 128))
	v.assume(bits <= 8 * len(d))
	n = ipaddress.ip_network((d, bits), strict=False)
	w = bytes((fam, bits, 1, len(d))) + n.network_address.packed
	for x in (n, str(n)):
		v.eq(pg_network.cidr_pack(x), w, 'network')
	v.eq(pg_network.cidr_unpack(w), n, 'network back')
	r = v.outcome(pg_network.cidr_unpack, bytes((fam, 8 * len(d) + 1 + bits % 30, 1, len(d))) + d)
	v.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'more bits than there are')

# ---- MAC addresses
HEX = '0123456789abcdefABCDEF'
def hexval(c):
	return HEX.index(c) if HEX.index(c) < 16 else HEX.index(c) - 6
FORMS = ((2, ':'), (2, '-'), (6, ':'), (6, '-'), (4, '.'), (12, ''))
def form(digits, n, sep):
	return sep.join([digits[i:i + n] for i in range(0, 12, n)])

@harness('P05', ['types.io.lib.macaddr_pack', 'types.io.lib.macaddr_unpack'])
def mac_forms(v):
	"each documented form denotes its bytes"
	n, sep = v.any('form', Choice(*FORMS))
	d = v.any('digits', Text(length=12, alphabet=HEX, allowed=HEX))
	def val(c):
		k = ord(c)
		return ite(k < 58, k - 48, ite(k < 71, k - 55, k - 87))
	want = b''.join([be(1, 16 * val(d[i]) + val(d[i + 1])) for i in range(0, 12, 2)])
	v.eq(lib.macaddr_pack(form(d, n, sep)), want, 'bytes')

@harness('P05', ['types.io.lib.macaddr_pack', 'types.io.lib.macaddr_unpack'], mode='sampled', runs=6000, bound='sampled texts')
def mac_texts(v):
	"the form given; what has another number of digits is refused"
	def rand(r, size):
		b = bytes(r.randrange(256) for _ in range(6))
		return b, form(b.hex(), *r.choice(FORMS))
	b, t = v.any('address', Search('address', rand))
	s = ':'.join('%02x' % x for x in b)
	v.eq(lib.macaddr_unpack(b), s, 'text')
	v.eq(lib.macaddr_pack(s), b, 'bytes')
	v.eq(lib.macaddr_pack(t), b, 'bytes of the form')
	i, c = v.any('position', Int(0, 17)), v.any('character', Choice('0', 'f', 'g', ':', '.', '-', 'z', '7'))
	i = min(i, len(t))
	for x in (t[:i] + c + t[i:], t[:i] + c + t[i + 1:], t + c, c + t):
		h = sum(ch in HEX for ch in x)
		if h > 12 or any(ch in 'gz' for ch in x):
			r = v.outcome(lib.macaddr_pack, x)
			v.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'not an address: ' + x)
	for x in (b[:-1], b + b'a', b''):
		r = v.outcome(lib.macaddr_unpack, x)
		v.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'wrong length')

# ---- uuid
@harness('P05', ['types.io.stdlib_uuid.uuid_pack', 'types.io.stdlib_uuid.uuid_unpack'], mode='sampled', runs=2000, bound='sampled')
def uuids(v):
	d = v.any('bytes', Bytes(length=16))
	u = uuid.UUID(bytes=d)
	for x in (u, str(u), '{%s}' % u, u.urn, u.hex.upper()):
		v.eq(stdlib_uuid.uuid_pack(x), d, 'wire')
	v.eq(stdlib_uuid.uuid_unpack(d), u, 'back')
	r = v.outcome(stdlib_uuid.uuid_unpack, d[:v.any('n', Int(0, 15))])
	v.check(r[0] == 'raise', 'wrong length')

# ---- json
class Coder(object):
	"the text coding of a connection"
	def __init__(self, texts):
		self.texts = texts
	def encode(self, x):
		return self.texts[0] if x is self.texts[1] else None
	def decode(self, x):
		return ('decoded', x)

@harness('P05', ['types.io.stdlib_jsonb.jsonb_pack', 'types.io.stdlib_jsonb.jsonb_unpack'])
def json_documents(v):
	"version one and the encoded text; no other version"
	d = v.any('encoded', Bytes())
	doc = object()
	pack, unpack, t = stdlib_jsonb.oid_to_io[stdlib_jsonb.JSONBOID](3802, Coder((d, doc)))
	v.eq(pack(doc), b'\x01' + d, 'wire')
	w = v.any('received', Bytes(minlen=1))
	o, x = v.outcome(lambda: unpack(w))
	if w[0] == 1:
		v.eq(o, 'ok', 'accepted')
		v.eq(x, ('decoded', w[1:]), 'the text')
	else:
		v.check(o == 'raise' and isinstance(x, ValueError), 'another version')

# ---- text
ENC = {
	'UTF8': 'utf-8', 'utf8': 'utf-8', ' UTF8 ': 'utf-8', 'UNICODE': 'utf-8', 'SQL_ASCII': 'ascii', 'LATIN1': 'iso8859-1', 'LATIN2': 'iso8859-2', 'LATIN9': 'iso8859-15', 'ISO_8859_5': 'iso8859-5',
	'WIN1252': 'cp1252', 'WIN1251': 'cp1251', 'windows-1250': 'cp1250', 'WIN866': 'cp866', 'ALT': 'cp866', 'WIN874': 'cp874', 'KOI8R': 'koi8-r', 'KOI8U': 'koi8-u', 'EUC_JP': 'euc_jp', 'EUC_KR': 'euc_kr', 'EUC_CN': 'gb2312',
	'SJIS': 'shift_jis', 'BIG5': 'big5', 'GBK': 'gbk', 'GB18030': 'gb18030', 'UHC': 'cp949', 'JOHAB': 'johab', 'SHIFT_JIS_2004': 'shift_jis_2004', 'EUC_JIS_2004': 'euc_jis_2004', 'TCVN': 'cp1258', 'VSCII': 'cp1258', 'ABC': 'cp1258',
}
SOME = 'abc \'"\\0{}\u00e9\u0416\u044f\u20ac\u03b1\u3042\u30ab\u65e5\u672c\ud55c\u4e2d\u0e01\U00020000\xa0'
@harness('P05', ['driver.pq3.TypeIO.set_encoding', 'driver.pq3.TypeIO.encode', 'driver.pq3.TypeIO.decode', 'encodings.aliases.get_python_name', 'driver.pq3.TypeIO.resolve'],
	mode='sampled', runs=4000, bound='sampled texts in 31 client encodings')
def texts(v):
	from postgresql.driver import pq3
	name = v.any('encoding', Choice(*ENC))
	cs = v.any('text', Search('text', lambda r, size: ''.join(r.choice(SOME) for _ in range(r.randint(0, 12)))))
	s = cs.encode(ENC[name], 'ignore').decode(ENC[name])
	t = pq3.TypeIO(None)
	t.set_encoding(name)
	w = s.encode(ENC[name])
	v.eq(t.encode(s), w, 'wire')
	v.eq(t.decode(w), s, 'back')
	v.eq(list(t.encodes([s, s])), [w, w], 'several')
	v.eq(list(t.decodes([w])), [s], 'several back')
	for oid in (25, 1043, 19, 1042):
		v.check(t.resolve(oid)[0] is None and t.resolve_pack(oid) == t.encode and t.resolve_unpack(oid) == t.decode, 'text types')

@harness('P05', ['driver.pq3.Connection._receive_async', 'driver.pq3.TypeIO.set_encoding'], mode='sampled', runs=600, bound='sampled changes of settings')
def encoding_changes(v):
	"the client encoding is the one the server told last; no other setting changes it"
	from postgresql.driver import pq3
	from postgresql.protocol import element3 as e3
	db = pq3.Connection(pq3.IP4(host='h', port=5432, user='u', driver=pq3.Driver()))
	db.typio.set_encoding('utf8')
	want = 'utf-8'
	for name, x in v.any('told', Search('told', lambda r, size: [(r.choice(('client_encoding', 'client_encoding', 'server_encoding', 'DateStyle')), r.choice(sorted(ENC))) for _ in range(r.randint(0, 4))])):
		db._receive_async(e3.ShowOption(name.encode('ascii'), x.encode('ascii')))
		if name == 'client_encoding':
			want = ENC[x]
	s = SOME.encode(want, 'ignore').decode(want)
	v.eq(db.typio.encode(s), s.encode(want), 'wire')
	v.eq(db.typio.decode(s.encode(want)), s, 'back')
