from pyvc.api import *
from contracts.common import *
from postgresql.python import structlib as S
from postgresql import types as T
from postgresql.types import io as IO
from postgresql.types.io import lib

def _io(oid):
	x = IO.resolve(oid)
	return x[0], x[1]

# name, width, signed, pack/unpack pair
INTS = [
	('int2', 2, True, (S.short_pack, S.short_unpack)),
	('uint2', 2, False, (S.ushort_pack, S.ushort_unpack)),
	('int4', 4, True, (S.long_pack, S.long_unpack)),
	('uint4', 4, False, (S.ulong_pack, S.ulong_unpack)),
	('int8', 8, True, (S.longlong_pack, S.longlong_unpack)),
	('uint8', 8, False, (S.ulonglong_pack, S.ulonglong_unpack)),
	('INT2', 2, True, _io(T.INT2OID)),
	('INT4', 4, True, _io(T.INT4OID)),
	('INT8', 8, True, _io(T.INT8OID)),
	('ABSTIME', 4, True, _io(T.ABSTIMEOID)),
	('OID', 4, False, _io(T.OIDOID)),
	('XID', 4, False, _io(T.XIDOID)),
	('CID', 4, False, _io(T.CIDOID)),
]

def rng(w, signed):
	return (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if signed else (0, (1 << 8 * w) - 1)

ANY = Int(None, None, bias=[s * ((1 << k) + d) for k in (7, 8, 15, 16, 31, 32, 63, 64) for d in (-2, -1, 0, 1, 2) for s in (1, -1)])

@harness('P01', ['structlib.%s_pack' % n for n in ('short', 'ushort', 'long', 'ulong', 'longlong', 'ulonglong')] +
	['structlib.%s_unpack' % n for n in ('short', 'ushort', 'long', 'ulong', 'longlong', 'ulonglong')] +
	['types.io.resolve', 'types.io.builtins.oid_to_io', 'types.io.pg_system.oid_to_io'], runs=6000)
def integers(v):
	k = v.any('type', Choice(*range(len(INTS))))
	name, w, signed, (pack, unpack) = INTS[k]
	lo, hi = rng(w, signed)
	x = v.any('value', ANY)
	o, r = v.outcome(pack, x)
	if lo <= x and x <= hi:
		v.check(o == 'ok', 'a value of the range is packed')
		v.eq(r, be(w, x), 'big-endian bytes of the width')
		v.eq(unpack(r), x, 'unpacking gives the value back')
	else:
		v.check(o == 'raise', 'a value outside the range is refused')

@harness('P01', ['structlib.*_unpack', 'types.io.builtins', 'types.io.pg_system'], runs=6000)
def integers_from_bytes(v):
	k = v.any('type', Choice(*range(len(INTS))))
	name, w, signed, (pack, unpack) = INTS[k]
	lo, hi = rng(w, signed)
	d = v.any('data', Bytes(length=8))[:w]
	x = unpack(d)
	v.check(lo <= x and x <= hi, 'in the range of the type')
	v.eq(be(w, x), d, 'the bytes are the value')
	v.eq(pack(x), d, 'packing gives the bytes back')

@harness('P01', ['structlib.*_unpack'], runs=3000)
def short_data(v):
	"data shorter than the width is refused"
	k = v.any('type', Choice(*range(len(INTS))))
	name, w, signed, (pack, unpack) = INTS[k]
	d = v.any('data', Bytes(maxlen=7))
	v.assume(size(d) < w)
	o, r = v.outcome(unpack, d)
	v.check(o == 'raise', 'refused')

@harness('P01', ['types.io.builtins.bool_pack', 'types.io.builtins.bool_unpack'])
def booleans(v):
	pack, unpack = _io(T.BOOLOID)
	b = v.any('value', Bool())
	if b:
		v.eq(pack(b), b'\x01', 'true')
		v.check(unpack(b'\x01') is True, 'true back')
	else:
		v.eq(pack(b), b'\x00', 'false')
		v.check(unpack(b'\x00') is False, 'false back')

@harness('P01', ['types.io.builtins.bool_unpack'], mode='bounded', bound='every one-byte and some longer byte strings')
def booleans_refused(v):
	pack, unpack = _io(T.BOOLOID)
	d = v.any('data', Choice(*([bytes((i,)) for i in range(2, 256)] + [b'', b'\0\0', b'\x01\0'])))
	o, r = v.outcome(unpack, d)
	v.check(o == 'raise', 'no other byte is a boolean')

FLOATS = [(4, (S.float_pack, S.float_unpack)), (8, (S.double_pack, S.double_unpack)), (4, _io(T.FLOAT4OID)), (8, _io(T.FLOAT8OID))]

@harness('P01', ['structlib.float_pack', 'structlib.float_unpack', 'structlib.double_pack', 'structlib.double_unpack'], runs=3000)
def floats(v):
	k = v.any('type', Choice(*range(len(FLOATS))))
	w, (pack, unpack) = FLOATS[k]
	f = v.any('value4', Float(4)) if w == 4 else v.any('value8', Float(8))
	d = pack(f)
	v.eq(size(d), w, 'width')
	v.eq(d, ieee(f, w), 'IEEE bytes in network order')
	v.eq(unpack(d), f, 'unpacking gives the value back')

def ieee(f, w):
	if is_symbolic():
		return be(w, f.bits)
	import struct
	return bytes(reversed(struct.pack('<d' if w == 8 else '<f', f)))

NOTNAN8 = Bytes(length=8)

@harness('P01', ['structlib.float_unpack', 'structlib.double_unpack'], runs=3000)
def floats_from_bytes(v):
	k = v.any('type', Choice(*range(len(FLOATS))))
	w, (pack, unpack) = FLOATS[k]
	d = v.any('data', Bytes(length=8))[:w]
	x = unpack(d)
	if not is_symbolic() and x != x:
		v.check(pack(x)[0] & 0x7f == 0x7f, 'NaN stays NaN')
	else:
		v.eq(pack(x), d, 'packing gives the bytes back')

PAIRS = [
	('LH', 4, 2, False, False, (S.LH_pack, S.LH_unpack)), ('lH', 4, 2, True, False, (S.lH_pack, S.lH_unpack)),
	('ql', 8, 4, True, True, (S.ql_pack, S.ql_unpack)), ('TID', 4, 2, False, False, _io(T.TIDOID)),
]

@harness('P01', ['structlib.mk_pack', 'structlib.LH_pack', 'structlib.ql_pack'], runs=3000)
def pairs(v):
	k = v.any('type', Choice(*range(len(PAIRS))))
	name, w1, w2, s1, s2, (pack, unpack) = PAIRS[k]
	a, b = v.any('a', ANY), v.any('b', ANY)
	l1, h1 = rng(w1, s1)
	l2, h2 = rng(w2, s2)
	o, r = v.outcome(pack, (a, b))
	if l1 <= a and a <= h1 and l2 <= b and b <= h2:
		v.check(o == 'ok', 'packed')
		v.eq(r, be(w1, a) + be(w2, b), 'layout')
		v.eq(tuple(unpack(r)), (a, b), 'back')
	else:
		v.check(o == 'raise', 'refused')

@harness('P01', ['structlib.llL_pack', 'structlib.qll_pack', 'structlib.hhhh_pack'], runs=3000)
def records(v):
	a, b, c, d = v.any('a', I32), v.any('b', I32), v.any('c', U32), v.any('d', I64)
	v.eq(S.llL_pack((a, b, c)), be(4, a) + be(4, b) + be(4, c), 'llL layout')
	v.eq(tuple(S.llL_unpack(be(4, a) + be(4, b) + be(4, c))), (a, b, c), 'llL back')
	v.eq(S.qll_pack((d, a, b)), be(8, d) + be(4, a) + be(4, b), 'qll layout')
	v.eq(tuple(S.qll_unpack(be(8, d) + be(4, a) + be(4, b))), (d, a, b), 'qll back')
	h = v.any('h', FixedSeq(I16, (4,), 'tuple'))
	v.eq(S.hhhh_pack(h), be(2, h[0]) + be(2, h[1]) + be(2, h[2]) + be(2, h[3]), 'hhhh layout')
	v.eq(tuple(S.hhhh_unpack(S.hhhh_pack(h))), h, 'hhhh back')

@harness('P01', ['types.io.builtins.bytea_pack', 'types.io.builtins.char_pack'])
def raw_bytes(v):
	d = v.any('data', Bytes())
	for oid in (T.BYTEAOID, T.CHAROID):
		pack, unpack = _io(oid)
		v.eq(pack(d), d, 'bytes as they are')
		v.eq(unpack(d), d, 'bytes back')
