from pyvc.api import *
from contracts.common import *
from postgresql.protocol import pbuffer, buffer
from postgresql.protocol.pbuffer import pq_message_stream
import io

# a message as the reader delivers it: its type byte and its payload
MSG = Tup(Bytes(length=1), Bytes(maxlen=2**32 - 5))
from contracts.common import _frame

def incomplete(v):
	"a stream without a complete message"
	k = v.any('tail kind', Choice(0, 1))
	if k == 0:
		return v.any('short header', Bytes(maxlen=4))
	t, n, part = v.any('type', Bytes(length=1)), v.any('length', Int(5, 2**32 - 1)), v.any('part', Bytes())
	v.assume(size(part) + 4 < n)
	return t + be(4, n) + part

def broken(v):
	"a header whose length field is smaller than four"
	return v.any('type', Bytes(length=1)) + be(4, v.any('bad length', Int(0, 3))) + v.any('more', Bytes())

def holding(v, cls, rest):
	"a stream in any reachable state whose undelivered bytes are rest"
	s = cls()
	if v.symbolic and hasattr(s, '_strio') and hasattr(s, '_start'):
		junk = v.any('delivered', Bytes())
		s._strio = io.BytesIO(junk + rest)
		s._start = size(junk)
	elif v.symbolic:
		s.write(rest)
	else:
		n = v.any('history', Int(0, 4, bias=[0, 1, 2, 3, 4]))
		w = v.any('history width', Int(0, 900, bias=[0, 507, 505, 600, 900]))
		got = []
		for i in range(n):
			s.write(_frame((b'h', b'x' * w)))
			if v.any('drain%d' % i, Bool()):
				got.extend(s.read())
		cut = v.any('cut', Int(0, 20))
		s.write(rest[:cut])
		while len(got) < n:
			m = s.next_message()
			v.eq(m, (b'h', b'x' * w), 'earlier messages')
			got.append(m)
		s.write(rest[cut:])
	return s

def undelivered(v, s, rest, name):
	v.eq(s.getvalue(), rest, name)

@stub('postgresql.protocol.pbuffer:pq_message_stream._rtruncate')
def _(self, amt):
	"drop the first amt bytes"
	self._strio = io.BytesIO(self._strio.getvalue()[amt:])

@harness('P07', ['pbuffer.pq_message_stream._rtruncate'], internal=True)
def rtruncate(v):
	s = pq_message_stream()
	d, r = v.any('delivered', Bytes()), v.any('rest', Bytes())
	s._strio = io.BytesIO(d + r)
	real(pq_message_stream._rtruncate, s, size(d))
	v.eq(s._strio.getvalue(), r, 'the delivered bytes are dropped, and only those')

# proofs on the Python implementation; both implementations when executed
IMPLS = Choice(0) if is_symbolic() else Choice(0, 1)
def impl(v):
	return pq_message_stream if v.symbolic else (pq_message_stream, buffer.pq_message_stream)[v.any('implementation', Choice(0, 1))]

@harness('P07', ['pbuffer.pq_message_stream.write', 'pbuffer.pq_message_stream.getvalue', 'pbuffer.pq_message_stream.truncate'])
def write(v):
	"the undelivered bytes are those written, whatever the cut"
	cls = impl(v)
	r, d = v.any('rest', Bytes()), v.any('data', Bytes())
	s = holding(v, cls, r if v.symbolic else (b'Z\0\0\0\xff' + r)[:200])
	r = r if v.symbolic else (b'Z\0\0\0\xff' + r)[:200]
	s.write(d)
	undelivered(v, s, r + d, 'appended')
	s.truncate()
	undelivered(v, s, b'', 'emptied')
	s.write(d)
	undelivered(v, s, d, 'usable afterwards')

@harness('P07', ['pbuffer.pq_message_stream.next_message', 'pbuffer.pq_message_stream._get_message', 'pbuffer.pq_message_stream._rtruncate', 'pbuffer.pq_message_stream.has_message', 'pbuffer.pq_message_stream.__next__'])
def next_complete(v):
	"a complete first message is delivered and nothing else is touched"
	cls = impl(v)
	m, r = v.any('message', MSG), v.any('rest', Bytes())
	s = holding(v, cls, _frame(m) + r)
	v.check(s.has_message() is True or s.has_message() == True, 'announced')
	if v.any('iterate', Bool()):
		got = next(s)
	else:
		got = s.next_message()
	v.eq(got, (m[0], m[1]), 'message')
	undelivered(v, s, r, 'the rest')

@harness('P07', ['pbuffer.pq_message_stream.next_message', 'pbuffer.pq_message_stream.has_message', 'pbuffer.pq_message_stream.__len__', 'pbuffer.pq_message_stream.read', 'pbuffer.pq_message_stream.__next__'])
def next_incomplete(v):
	"an incomplete message is withheld and kept"
	cls = impl(v)
	v.ghost(messages=[])
	r = incomplete(v)
	s = holding(v, cls, r)
	op = v.any('operation', Choice(0, 1, 2, 3, 4))
	if op == 0:
		v.check(s.next_message() is None, 'nothing delivered')
	elif op == 1:
		v.check(not s.has_message(), 'not announced')
	elif op == 2:
		v.check(len(s) == 0, 'not counted')
	elif op == 3:
		v.check(len(s.read()) == 0, 'not read')
	else:
		v.check(next(s, None) is None, 'not iterated')
	undelivered(v, s, r, 'kept')

@harness('P07', ['pbuffer.pq_message_stream.next_message', 'pbuffer.pq_message_stream.has_message', 'pbuffer.pq_message_stream.__len__', 'pbuffer.pq_message_stream.read', 'pbuffer.pq_message_stream.__next__'])
def bad_length(v):
	"a length smaller than four is an error"
	cls = impl(v)
	v.ghost(messages=[])
	r = broken(v)
	s = holding(v, cls, r)
	op = v.any('operation', Choice(0, 1, 2, 3, 4))
	o, x = v.outcome((s.next_message, s.has_message, s.__len__, s.read, s.__next__)[op])
	v.check(o == 'raise' and isinstance(x, ValueError), 'refused')
	undelivered(v, s, r, 'kept')

MSGS = Seq(MSG, 'list', cap=5)

@harness('P07', ['pbuffer.pq_message_stream.__len__', 'pbuffer.pq_message_stream._get_message'])
def count(v):
	"the number of available messages is the number of complete frames"
	cls = impl(v)
	ms = v.any('messages', MSGS)
	v.ghost(messages=ms)
	t = incomplete(v)
	s = holding(v, cls, FRAMES(ms) + t)
	v.eq(v.outcome(len, s)[1], size(ms), 'count')
	undelivered(v, s, FRAMES(ms) + t, 'kept')

@harness('P07', ['pbuffer.pq_message_stream.read', 'pbuffer.pq_message_stream._get_message', 'pbuffer.pq_message_stream._rtruncate'])
def read_all(v):
	"every complete message, in order, and only those"
	cls = impl(v)
	ms = v.any('messages', MSGS)
	v.ghost(messages=ms)
	v.assume(size(ms) < 2**32)
	t = incomplete(v)
	s = holding(v, cls, FRAMES(ms) + t)
	got = s.read()
	v.eq(got if v.symbolic else list(got), ms, 'messages')
	undelivered(v, s, t, 'the rest')

@harness('P07', ['pbuffer.pq_message_stream.read'])
def read_some(v):
	"at most the number asked for; the others stay"
	cls = impl(v)
	ms = v.any('messages', MSGS)
	v.ghost(messages=ms)
	n = v.any('number', Int(0, 2**31 - 1, bias=[0, 1, 2, 3]))
	t = incomplete(v)
	s = holding(v, cls, FRAMES(ms) + t)
	got = s.read(n)
	if size(ms) <= n:
		v.eq(got if v.symbolic else list(got), ms, 'messages')
		undelivered(v, s, t, 'the rest')
	else:
		v.eq(got if v.symbolic else list(got), ms[:n], 'messages')
		undelivered(v, s, FRAMES(ms[n:]) + t, 'the rest')

@harness('P07', ['pbuffer.pq_message_stream', 'port.optimized.pq_message_stream'], mode='sampled', runs=6000, bound='streams of up to 15 messages in random cuts and operations')
def any_schedule(v):
	"both implementations deliver the messages of the stream under any schedule of writes and reads"
	cls = impl(v)
	ms = v.any('messages', Seq(Tup(Bytes(length=1), Choice(Bytes(), Bytes(), Choice(b'y' * 507, b'z' * 1500, b'w' * 2043))), 'list', cap=15))
	t = incomplete(v)
	data = FRAMES(ms) + t
	s, got, i = cls(), [], 0
	for k in range(60):
		if i == len(data) and k > 10:
			break
		n = v.any('n%d' % k, Int(0, 700, bias=[0, 1, 4, 5, 6, 511, 512, 513]))
		op = v.any('op%d' % k, Choice(0, 0, 1, 2, 3, 4))
		if op == 0:
			s.write(data[i:i + n]); i = min(len(data), i + n)
		elif op == 1:
			h = s.has_message()
			m = s.next_message()
			v.check(bool(h) == (m is not None), 'announced')
			got.extend([m] if m is not None else [])
		elif op == 2:
			c = len(s)
			l = s.read(n % 4)
			v.check(len(l) == min(c, n % 4), 'counted')
			got.extend(l)
		elif op == 3:
			got.extend(s.read())
		else:
			while True:
				m = next(s, None)
				if m is None:
					break
				got.append(m)
		v.eq(s.getvalue(), data[len(FRAMES(got)):i], 'undelivered')
	s.write(data[i:])
	got.extend(s.read())
	v.eq(got, ms, 'messages')
	v.eq(s.getvalue(), t, 'the rest')
