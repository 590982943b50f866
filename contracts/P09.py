from pyvc.api import *
from contracts.common import *
from postgresql import copyman as C

try:
	from postgresql.port import optimized as opt
except ImportError:
	opt = None

ROWS = Seq(Bytes(maxlen=2**31 - 64), 'list', cap=5)

def state(v):
	"""
	a tracker in any state; -> (state, bytes that complete its current message or None)

	between messages, inside a header, inside a body
	"""
	s = C.WireState()
	k = v.any('state', Choice('between', 'header', 'body'))
	if k == 'between':
		return s, None
	n = v.any('pending size', Int(4, 2**31 - 1, bias=[4, 5, 6, 12]))
	if not v.symbolic:
		n = 4 + n % 40
	head = be(4, n)
	if k == 'header':
		o = v.any('seen', Int(0, 3))
		if v.symbolic:
			s.remaining_bytes = -1
			s.size_fragment = head[:o]
			body = v.any('pending body', Bytes())
			v.assume(size(body) == n - 4)
		else:
			v.eq(s.update(b'd' + head[:o]), 0, 'no message yet')
			body = b'x' * (n - 4)
		return s, head[o:] + body
	if v.symbolic:
		# at least one byte of the body is missing
		body = v.any('pending body', Bytes(minlen=1))
		v.assume(size(body) < n)
		s.remaining_bytes = size(body)
	else:
		if n == 4:
			v.assume(False)
		i = v.any('seen', Int(0, 40)) % (n - 4)
		body = b'x' * (n - 4 - i)
		v.eq(s.update(b'd' + head + b'y' * i), 0, 'no message yet')
	return s, body

def tail(v):
	"what follows the complete messages: (bytes, remaining_bytes, size_fragment, final view?)"
	k = v.any('tail', Choice('nothing', 'header', 'body', 'other'))
	if k == 'nothing':
		return b'', 0, b'', False
	if k == 'header':
		f = v.any('fragment', Bytes(maxlen=3))
		return b'd' + f, -1, f, False
	if k == 'body':
		n = v.any('size', Int(5, 2**31 - 1, bias=[5, 6, 20]))
		part = v.any('part', Bytes())
		v.assume(size(part) + 4 < n)
		return b'd' + be(4, n) + part, n - 4 - size(part), b'', False
	t = v.any('other type', Int(0, 255, bias=[0, 67, 99, 101, 90, 0x44, 0xff]))
	v.assume(t != 100)
	return be(1, t) + v.any('more', Bytes()), 0, b'', True

def after(v, s, t, r):
	"the state says exactly what is missing"
	v.eq(s.remaining_bytes, r[1], 'bytes missing')
	v.eq(s.size_fragment, r[2], 'header fragment')
	if r[3]:
		v.check(s.final_view is not None, 'stopped at the first other message')
		v.eq(s.final_view if v.symbolic else bytes(s.final_view), r[0], 'without consuming it')
		o, x = v.outcome(s.update, b'd')
		v.check(o == 'raise' and isinstance(x, RuntimeError), 'unusable afterwards')
	else:
		v.check(s.final_view is None, 'still copying')

@harness('P09', ['copyman.WireState.update', 'copyman.WireState.__init__'], paths=6000, seconds=300)
def to_the_boundaries(v):
	"the rest of the current message, complete messages, and something incomplete or foreign"
	s, first = state(v)
	ms = v.any('messages', ROWS)
	t = tail(v)
	w = DATA(ms) + t[0]
	if first is not None:
		w = first + w
	v.ghost(messages=ms, tail=t[0], left=t[1])
	n = s.update(memoryview(w))
	v.eq(n, size(ms) + (0 if first is None else 1), 'each complete message is counted once')
	after(v, s, t, t)

@harness('P09', ['copyman.WireState.update'])
def within(v):
	"a view that ends inside the current message"
	s, first = state(v)
	v.assume(first is not None)
	k = v.any('cut', Int(0))
	if not v.symbolic:
		k = k % (len(first) or 1)
	v.assume(k < size(first))
	r0, f0 = s.remaining_bytes, s.size_fragment
	v.ghost(within=True)
	n = s.update(memoryview(first[:k]))
	v.eq(n, 0, 'nothing is complete')
	v.check(s.final_view is None, 'still copying')
	if s.remaining_bytes != -1:
		v.eq(s.remaining_bytes, size(first) - k, 'bytes missing')
		v.eq(s.size_fragment, b'', 'no header fragment')
	else:
		v.check(r0 == -1, 'inside the header')
		v.eq(s.size_fragment, f0 + first[:k], 'header fragment')
		v.check(size(s.size_fragment) < 4, 'incomplete header')

TRACKERS = [C.WireState] + ([opt.WireState] if opt is not None and hasattr(opt, 'WireState') else [])

@harness('P09', ['copyman.WireState.update', 'port.optimized.WireState.update'], mode='sampled', runs=8000, bound='streams of at most 6 messages in random cuts')
def any_cut(v):
	"both trackers, however the stream is cut"
	cls = TRACKERS[v.any('implementation', Choice(*range(len(TRACKERS))))]
	ms = v.any('messages', Seq(Bytes(maxlen=12), 'list', cap=6))
	t = tail(v)
	v.assume(t[1] < 10**9)
	data = DATA(ms) + t[0]
	s, i, n = cls(), 0, 0
	ends, e = [], 0
	for m in ms:
		e += len(m) + 5
		ends.append(e)
	for k in range(40):
		if i >= len(data):
			break
		c = v.any('cut%d' % k, Int(0, 30, bias=[0, 1, 2, 3, 4, 5, 6, 9]))
		if k == 39:
			c = len(data)
		n += s.update(memoryview(data[i:i + c]))
		i += min(c, len(data) - i)
		v.eq(n, sum(1 for x in ends if x <= i), 'messages complete so far')
		if s.final_view is not None:
			break
	if t[3]:
		v.check(s.final_view is not None, 'stopped')
		v.eq(bytes(s.final_view), data[len(DATA(ms)):i], 'at the first other message')
		o, x = v.outcome(s.update, b'd')
		v.check(o == 'raise' and isinstance(x, RuntimeError), 'unusable afterwards')
	else:
		v.check(s.final_view is None, 'still copying')
		v.eq(s.remaining_bytes, t[1], 'bytes missing')
		v.eq(s.size_fragment, t[2], 'header fragment')
