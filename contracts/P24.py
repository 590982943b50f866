import itertools
from pyvc.api import *
from contracts.common import *
from postgresql.types.bitwise import Varbit, Bit, OneBit, ZeroBit

@harness('P24', ['types.bitwise.Varbit.getbit', 'types.bitwise.Varbit.__getitem__', 'types.bitwise.Varbit.from_bits', 'types.bitwise.Varbit.__len__'])
def indexing(v):
	"the n-th bit of the data, from either end"
	data = v.any('data', Bytes(minlen=1))
	cut = v.any('bits unused', Choice(*range(8)))
	n = len(data) * 8 - cut
	v.assume(n > 1)
	b = Varbit.from_bits(n, data)
	v.eq(len(b), n, 'length')
	i = v.any('index', Int(-10 ** 6, 10 ** 6, bias=(0, 1, 7, 8, -1, -8)))
	r = v.outcome(lambda: b[i])
	if -n <= i and i < n:
		k = i if i >= 0 else n + i
		x = (data[k // 8] // (128, 64, 32, 16, 8, 4, 2, 1)[k % 8]) % 2
		v.eq(r[0], 'ok', 'a bit')
		v.check((r[1] is OneBit) == (x == 1) and (r[1] is ZeroBit) == (x == 0), 'the bit')
	else:
		v.check(r[0] == 'raise' and type(r[1]) is IndexError, 'no such bit')

@harness('P24', ['types.bitwise.Varbit.from_bits', 'types.bitwise.Varbit.__new__'])
def from_data(v):
	"bytes are their bits; one bit is one of the two bits"
	data = v.any('data', Bytes())
	b = Varbit(data)
	v.eq((b.bits, b.data), (len(data) * 8, data), 'all bits')
	v.check(Varbit(b) is b, 'a bit string stays')
	one = v.any('one', Bytes(length=1))
	v.check(Varbit.from_bits(1, one) is (OneBit if one[0] >= 128 else ZeroBit), 'one bit')

@harness('P24', ['types.bitwise.Varbit.__eq__'])
def equality(v):
	"the same bits and the same number of them"
	a, b = v.any('a', Bytes()), v.any('b', Bytes())
	m, n = v.any('m', Int(2, 1 << 31)), v.any('n', Int(2, 1 << 31))
	x, y = Varbit.from_bits(m, a), Varbit.from_bits(n, b)
	v.eq(x == y, a == b and m == n, 'equal')
	v.eq(x == b, a == b and m == len(b) * 8, 'equal to bytes')

@harness('P24', ['types.bitwise.Varbit.__bool__'], mode='bounded', bound='at most 3 bytes')
def truth(v):
	"any bit is set"
	data = v.any('data', Bytes(length=v.any('n', Choice(0, 1, 2, 3))))
	t = False
	for x in data:
		if x != 0:
			t = True
	v.eq(bool(Varbit(data)), t, 'truth')

BITS = Search(Text(alphabet='01'), lambda r, size: ''.join(r.choice('01') for _ in range(r.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, r.randint(0, 70)]))))

def packed(s):
	return bytes([int((s[i:i + 8] + '0000000')[:8], 2) for i in range(0, len(s), 8)])

def one(v, s):
	x = Varbit(s)
	if str(x) != s or len(x) != len(s) or x.data != packed(s) or x.bits != len(s):
		v.eq((str(x), len(x), x.data), (s, len(s), packed(s)), 'the bits of the text')
	y = Varbit.from_bits(len(s), packed(s))
	if str(y) != s or not (x == y) or not (x == s) or x != y:
		v.eq((str(y), x == y, x == s), (s, True, True), 'the bits of the data')
	if [z is OneBit for z in x] != [c == '1' for c in s] or bool(x) != ('1' in s):
		v.eq(([z is OneBit for z in x], bool(x)), ([c == '1' for c in s], '1' in s), 'every bit')
	if eval(repr(x).replace('postgresql.types.bitwise.', '')) != x:
		v.fail('repr')
	return x

@harness('P24', ['types.bitwise.Varbit.__new__', 'types.bitwise.Varbit.__str__', 'types.bitwise.Varbit.__iter__'], mode='sampled', runs=1, bound='every bit string of at most 10 bits')
def every(v):
	for n in range(11):
		for cs in itertools.product('01', repeat=n):
			one(v, ''.join(cs))
	v.check(True, 'the bits of the text')

@harness('P24', ['types.bitwise.Varbit.__add__', 'types.bitwise.Varbit.__mul__', 'types.bitwise.Varbit.__eq__', 'types.bitwise.Varbit.__getitem__'], mode='sampled', runs=1, bound='all pairs of bit strings of at most 5 bits, their slices')
def every_pair(v):
	all = [''.join(cs) for n in range(6) for cs in itertools.product('01', repeat=n)]
	for s in all:
		x = Varbit(s)
		for t in all:
			y = Varbit(t)
			if str(x + y) != s + t or str(x + t) != s + t or (x == y) != (s == t) or (x != y) != (s != t) or len(x + y) != len(s + t):
				v.eq((s, t, str(x + y), x == y), (s, t, s + t, s == t), 'pair')
		for i in list(range(-6, 7)) + [None]:
			for j in list(range(-6, 7)) + [None]:
				for k in (None, 2, -1):
					if str(x[i:j:k]) != s[i:j:k]:
						v.eq(str(x[i:j:k]), s[i:j:k], 'slice %r' % ((s, i, j, k),))
		for k in range(-1, 12):
			if str(x * k) != s * k:
				v.eq(str(x * k), s * k, 'repeated')
	v.check(True, 'pair')

@harness('P24', ['types.bitwise.Varbit'], mode='sampled', runs=4000, bound='bit strings of at most 70 bits')
def long(v):
	s, t = v.any('s', BITS), v.any('t', BITS)
	x, y = one(v, s), one(v, t)
	v.eq(str(x + y), s + t, 'joined')
	v.eq(x == y, s == t, 'equal')
	i, j = v.any('i', Int(-80, 80)), v.any('j', Int(-80, 80))
	v.eq(str(x[i:j]), s[i:j], 'slice')
	k = v.any('k', Int(0, 5))
	v.eq(str(x * k), s * k, 'repeated')

@harness('P24', ['types.bitwise.Bit'], mode='sampled', runs=1, bound='all')
def bit(v):
	"there are two bits"
	for x in (False, '0', ZeroBit, Varbit('0'), Varbit.from_bits(1, b'\0')):
		v.check(Bit(x) is ZeroBit, 'zero')
	for x in (True, '1', OneBit, Varbit('1'), Varbit.from_bits(1, b'\x80')):
		v.check(Bit(x) is OneBit, 'one')
	v.eq([str(ZeroBit), str(OneBit), len(ZeroBit), len(OneBit), bool(ZeroBit), bool(OneBit)], ['0', '1', 1, 1, False, True], 'the two')
	v.check(ZeroBit != OneBit and ZeroBit == ZeroBit and OneBit == '1' and OneBit == True and not (ZeroBit == True), 'compared')
	for x in ('', '2', '10', '01', Varbit('10'), Varbit(''), Varbit('00')):
		r = v.outcome(Bit, x)
		v.check(r[0] == 'raise' and isinstance(r[1], ValueError), 'no bit')
	for x in (Varbit('10'), Varbit(''), Varbit('00')):
		v.check(not (ZeroBit == x) and not (OneBit == x) and not (x == OneBit), 'bits and longer strings differ')
