from pyvc.api import *
from contracts.common import *
from postgresql.encodings import bytea as B

ANY = Bytes(alphabet='\\\\019 ~}\x00\x7f\xff%\'', maxlen=None)

def unit(i):
	"the escaped form of a byte"
	if i == 92:
		return '\\\\'
	if 32 < i < 126:
		return chr(i)
	return '\\' + chr(48 + i // 64) + chr(48 + i // 8 % 8) + chr(48 + i % 8)

@harness('P23', ['encodings.bytea.decode', 'encodings.bytea.ord_to_seq'])
def every_byte(v):
	"each byte has its escaped form, and it is decoded to that byte alone"
	i = v.any('byte', Int(0, 255))
	t = B.decode(bytes((i,)))
	v.eq(t, unit(int(i)) if not v.symbolic else t, 'escaped form')
	v.check(len(t) == 1 or t[0] == '\\', 'plain or escaped')
	v.eq(B.encode(t), bytes((i,)), 'the byte comes back')

@harness('P23', ['encodings.bytea.decode'])
def escaped_form(v):
	i = v.any('byte', Choice(*range(256)))
	v.eq(B.decode(bytes((i,))), unit(i), 'escaped form')
	v.eq(B.encode(unit(i)), bytes((i,)), 'the byte comes back')

@harness('P23', ['encodings.bytea.decode', 'encodings.bytea.encode'], mode='bounded', bound='any byte between bytes of each kind', paths=20000)
def round_trip(v):
	before = v.any('before', Choice(b'', b'\\', b'1', b'\x00'))
	i = v.any('byte', Choice(*range(256)))
	after = v.any('after', Choice(b'', b'\\', b'1', b'\xff'))
	data = before + bytes((i,)) + after
	v.eq(B.encode(B.decode(data)), data, 'round trip')

@harness('P23', ['encodings.bytea.decode', 'encodings.bytea.encode'], mode='sampled', bound='sampled byte strings', runs=3000, size=300)
def round_trip_long(v):
	data = v.any('data', ANY)
	t = B.decode(data)
	v.eq(t, ''.join([unit(i) for i in data]), 'escaped form')
	v.eq(B.encode(t), data, 'round trip')
	v.eq(B.decode(memoryview(data)), t, 'of a view')
	v.eq(data, ''.join([unit(i) for i in data]).encode('bytea'), 'codec')
	import codecs
	v.eq(codecs.lookup('bytea')[1](data)[0], t, 'codec')

def parse(text):
	"the bytes an escaped text denotes, or None"
	out, i, n = [], 0, len(text)
	while i < n:
		c = text[i]
		if c != '\\':
			if ord(c) > 255:
				return None
			out.append(ord(c))
			i += 1
			continue
		if i + 1 < n and text[i + 1] == '\\':
			out.append(92)
			i += 2
			continue
		if i + 4 > n:
			return None
		d = [ord(x) for x in text[i + 1:i + 4]]
		if not (48 <= d[0] <= 51 and 48 <= d[1] <= 55 and 48 <= d[2] <= 55):
			return None
		out.append((d[0] - 48) * 64 + (d[1] - 48) * 8 + d[2] - 48)
		i += 4
	return bytes(out)

@harness('P23', ['encodings.bytea.encode'], mode='bounded', bound='at most 5 characters', paths=20000)
def decoding(v):
	"an escaped text is read as the bytes it denotes; every other escape is refused"
	n = v.any('length', Choice(*range(6)))
	cs = [v.any('c%d' % k, Text(length=1, alphabet='\\\\\\0123789_ \u0663\xb2a\xff\u0100')) for k in range(n)]
	text = ''.join(cs)
	want = parse(text)
	o, r = v.outcome(B.encode, text)
	if want is None:
		v.check(o == 'raise', 'refused')
	else:
		v.check(o == 'ok', 'accepted')
		v.eq(r, want, 'the bytes denoted')

@harness('P23', ['encodings.bytea.encode'], mode='sampled', bound='sampled texts', runs=4000, size=30)
def decoding_long(v):
	text = v.any('text', Text(alphabet='\\\\\\\\000112378_ \u0663\xb2az'))
	want = parse(text)
	o, r = v.outcome(B.encode, text)
	if want is None:
		v.check(o == 'raise', 'refused')
	else:
		v.check(o == 'ok', 'accepted')
		v.eq(r, want, 'the bytes denoted')
