import itertools, struct
from decimal import Decimal, DefaultContext, localcontext
from fractions import Fraction
from pyvc.api import *
from contracts.common import *
from postgresql.types.io import stdlib_decimal as N
from postgresql.types.io import lib

class Parts(object):
	def __init__(self, sign, digits, exponent):
		self.sign, self.digits, self.exponent = sign, digits, exponent
class Given(object):
	"a decimal of the parts given"
	def __init__(self, *parts):
		self.parts = Parts(*parts)
	def as_tuple(self):
		return self.parts

def power(n):
	return Fraction(10) ** n

DIGIT = Int(0, 9)
@harness('P03', ['types.io.stdlib_decimal.numeric_pack'], mode='bounded', bound='at most 6 digits, exponents from -9 to 9; every digit', paths=6000)
def packing(v):
	"the groups of four digits have the value of the decimal, at its weight, sign and scale"
	n = v.any('digits', Choice(*range(1, 7)))
	exp = v.any('exponent', Choice(*range(-9, 10)))
	sign = v.any('sign', Choice(0, 1))
	ds = tuple([v.any('digit %d' % i, DIGIT) for i in range(n)])
	(nd, weight, s, scale), groups = N.numeric_pack(Given(sign, ds, exp), Decimal=Given, pack=lambda x: x)
	v.eq(nd, len(groups), 'number of groups')
	v.eq(scale, -exp if exp < 0 else 0, 'scale')
	# both as a multiple of 10 ** low
	low = min(exp, 4 * (weight - len(groups) + 1))
	value = 0
	for d in ds:
		value = value * 10 + d
	if value != 0:
		v.eq(s, 0x4000 if sign else 0, 'sign')
	value = value * 10 ** (exp - low)
	got = 0
	for g in groups:
		v.check(0 <= g and g <= 9999, 'a group')
		got = got * 10000 + g
	got = got * 10 ** (4 * (weight - len(groups) + 1) - low)
	v.eq(got, value, 'value')

SHORT = Int(-32768, 32767)
@harness('P03', ['types.io.lib.numeric_pack', 'types.io.lib.numeric_unpack'], mode='bounded', bound='at most 5 groups')
def header(v):
	"the four fields and the groups, two bytes each"
	h = tuple([v.any(n, SHORT) for n in ('groups', 'weight', 'sign', 'scale')])
	gs = [v.any('group %d' % i, SHORT) for i in range(v.any('n', Choice(*range(6))))]
	d = lib.numeric_pack((h, gs))
	w = b''
	for x in h + tuple(gs):
		w = w + be(2, x)
	v.eq(d, w, 'bytes')
	v.eq(lib.numeric_unpack(d), (h, tuple(gs)), 'and back')

def value_of(t):
	s, ds, e = t.as_tuple()
	return (-1) ** s * Fraction(int(''.join(map(str, ds)) or '0')) * power(e)
def value_of_wire(d):
	n, w, s, scale = struct.unpack('!hhHh', d[:8])
	gs = struct.unpack('!%dh' % n, d[8:])
	return (-1 if s == 0x4000 else 1) * sum([Fraction(g) * power(4 * (w - i)) for i, g in enumerate(gs)], Fraction(0)), scale

def decoded(v, gs, w, s, scale):
	d = struct.pack('!hhHh', len(gs), w, s, scale) + struct.pack('!%dh' % len(gs), *gs)
	x = N.numeric_unpack(d)
	want, _ = value_of_wire(d)
	if value_of(x) != want or -x.as_tuple().exponent != scale or (want != 0 and (x.as_tuple().sign == 1) != (s == 0x4000)):
		v.eq((value_of(x), -x.as_tuple().exponent), (want, scale), 'decoded %r' % ((gs, w, s, scale),))

@harness('P03', ['types.io.stdlib_decimal.numeric_unpack', 'types.io.stdlib_decimal.numeric_convert_digits'], mode='sampled', runs=1, bound='at most 3 groups of 9 kinds, weights from -3 to 4, scales to 12; every value of a group')
def unpacking(v):
	"sum(digit * 10000 ** (weight - index)) with the sign and the scale"
	kinds = (0, 1, 9, 10, 90, 100, 1000, 9999, 1230)
	for n in range(4):
		for gs in itertools.product(kinds, repeat=n):
			if gs and gs[0] == 0:
				continue
			for w in range(-3, 5):
				low = min([4 * (w - i) + (4 - len(str(g).rjust(4, '0').rstrip('0'))) for i, g in enumerate(gs) if g] or [0])
				least = max(0, -low)
				for scale in sorted(set([least, least + 1, least + 2, least + 5])):
					decoded(v, gs, w, 0x4000 if scale % 2 else 0, scale)
	for g in range(10000):
		for gs, w, scale in (((g, 1), 1, 0), ((1, g), 0, 4), ((7, g, 8), 1, 4), ((7, g), -1, 8)):
			if gs[0]:
				decoded(v, gs, w, 0, scale)
	v.check(True, 'decoded')

def rand_decimal(r, size):
	n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 20, r.randint(1, 60)])
	k = r.random()
	ds = [r.choice([0, 0, 1, 9, r.randint(0, 9)]) for _ in range(n)]
	if k < 0.3:
		z = r.randint(0, n)
		ds[n - z:] = [0] * z
	elif k < 0.5:
		z = r.randint(0, n)
		ds[:z] = [0] * z
	return (r.randint(0, 1), tuple(ds), r.choice([0, -1, -2, -3, -4, -5, 1, 2, 3, 4, 5, r.randint(-70, 70)]))

@harness('P03', ['types.io.stdlib_decimal.numeric_pack', 'types.io.stdlib_decimal.numeric_unpack'], mode='sampled', runs=20000, bound='sampled decimals of at most 60 digits')
def round_trip(v):
	"the same value with the same number of fractional digits"
	t = v.any('decimal', Search('decimal', rand_decimal))
	x = Decimal(t)
	d = N.numeric_pack(x)
	w, scale = value_of_wire(d)
	v.eq(w, value_of(x), 'value on the wire')
	e = x.as_tuple().exponent
	v.eq(scale, max(0, -e), 'scale on the wire')
	v.eq(struct.unpack('!h', d[:2])[0] * 2 + 8, len(d), 'groups')
	y = N.numeric_unpack(d)
	v.eq(value_of(y), value_of(x), 'value')
	v.eq(-y.as_tuple().exponent, max(0, -e), 'fractional digits')
	if value_of(x) != 0:
		v.eq(y.is_signed(), x.is_signed(), 'sign')

@harness('P03', ['types.io.stdlib_decimal.numeric_pack', 'types.io.stdlib_decimal.numeric_unpack'], mode='sampled', runs=1, bound='every decimal of at most 3 digits out of 0, 1, 9, exponents from -9 to 9; the special values')
def every_small(v):
	for n in (1, 2, 3):
		for ds in itertools.product((0, 1, 9), repeat=n):
			for e in range(-9, 10):
				for s in (0, 1):
					x = Decimal((s, ds, e))
					d = N.numeric_pack(x)
					y = N.numeric_unpack(d)
					if value_of_wire(d) != (value_of(x), max(0, -e)) or value_of(y) != value_of(x) or -y.as_tuple().exponent != max(0, -e):
						v.eq((d, y), x, 'small decimal')
	for x in (5, -70000, '12.50', '-0.0001'):
		v.eq(value_of(N.numeric_unpack(N.numeric_pack(x))), value_of(Decimal(x)), 'converted')
	v.check(N.numeric_unpack(N.numeric_pack(Decimal('NaN'))).is_nan(), 'NaN')
	v.eq(bytes(N.numeric_pack(Decimal('NaN')))[4:6], b'\xc0\x00', 'NaN on the wire')
	v.check(N.numeric_unpack(b'\0\0\0\0\xc0\0\0\0').is_nan(), 'NaN from the wire')
	for x in ('Infinity', '-Infinity'):
		r = v.outcome(N.numeric_pack, Decimal(x))
		v.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'no infinity')

@harness('P03', ['types.io.stdlib_decimal.oid_to_io'], mode='sampled', runs=1, bound='')
def registered(v):
	from postgresql.types import io, NUMERICOID
	x = io.resolve(NUMERICOID)
	v.eq(value_of(x[1](x[0](Decimal('-12.340')))), value_of(Decimal('-12.340')), 'the converters of numeric')
