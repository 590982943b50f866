import errno, sys
from pyvc.api import *
from contracts.common import *
from postgresql.protocol import element3 as e3, xact3, client3
from postgresql.python.socket import SocketFactory

def connection(x=None, sock=None):
	c = client3.Connection(SocketFactory((2, 1), ('localhost', 1)), [(b'user', b'u')], password=b'')
	c.xact = x
	c.socket = sock
	return c

class Xact(object):
	"a transaction of any behaviour"
	fatal = None
	messages = ()
	error_message = None
	def __init__(self, state):
		self.error_message = None
		self.fatal = None
		self.state = state

# ---- a socket: takes some of what it is given, or fails
def error_of(k):
	return OSError(errno.EPIPE, 'broken') if k == 'fatal' else OSError('no number') if k == 'odd' else OSError(errno.EAGAIN, 'again')
class Sock(object):
	def __init__(self, v):
		self.v, self.sent, self.received, self.ended, self.asked = v, b'', b'', None, None
	def send(self, data):
		v = self.v
		how = v.any('send', Search(Choice('ok', 'fatal', 'odd', 'again'), lambda r, s: r.choice(('ok', 'ok', 'ok', 'fatal', 'odd', 'again'))))
		if how != 'ok':
			self.ended = how
			raise error_of(how)
		v.check(size(data) > 0, 'something to send')
		n = v.any('accepted', Search(Int(1), lambda r, s: r.choice((1, 2, 3, 50))))
		if v.symbolic:
			v.assume(n <= size(data))
		else:
			n = min(n, len(data))
		self.sent = self.sent + data[:n]
		return n
	def recv(self, n):
		v = self.v
		v.check(n > 0, 'room')
		if self.asked is not None:
			v.check(self.asked.none, 'nothing is read while a message is there')
		how = v.any('recv', Search(Choice('ok', 'eof', 'fatal', 'odd', 'again'), lambda r, s: r.choice(('ok', 'ok', 'ok', 'eof', 'fatal', 'odd', 'again'))))
		if how == 'eof':
			self.ended = how
			return b''
		if how != 'ok':
			self.ended = how
			raise error_of(how)
		d = v.any('data', Bytes(minlen=1, maxlen=8192))
		self.received = self.received + d
		return d

def check_failed(v, x, how):
	v.check(x.state is xact3.Complete, 'over')
	v.check(x.fatal is True, 'fatal')
	c = x.error_message[b'C']
	v.eq(c if isinstance(c, str) else c.decode('ascii'), '08006', 'connection failure')

@harness('P12', ['protocol.client3.Connection.send_message_data', 'python.socket.SocketFactory.fatal_exception_message', 'python.socket.SocketFactory.try_again'])
def sends(v):
	"whatever the socket accepts at a time, what was accepted and what is left are the data; an error is a failed connection"
	x = Xact((xact3.Sending, None))
	s = Sock(v)
	c = connection(x, s)
	whole = v.any('message_data', Bytes())
	c.message_data = whole
	v.ghost(whole=whole, sock=s)
	o, r = v.outcome(c.send_message_data)
	v.eq(s.sent + c.message_data, whole, 'every byte once')
	sent_result(v, o, r, s, x, c)
def sent_result(v, o, r, s, x, c):
	if s.ended is None:
		v.check(o == 'ok' and r is True, 'sent')
		v.eq(c.message_data, b'', 'all of it')
		v.check(x.fatal is None and x.state is not xact3.Complete, 'nothing failed')
	elif s.ended == 'again':
		v.check(o == 'raise' and isinstance(r, OSError), 'to be tried again')
		v.check(x.fatal is None and x.state is not xact3.Complete, 'nothing failed')
	else:
		v.check(o == 'ok' and r is False, 'not sent')
		check_failed(v, x, s.ended)

MESSAGES = Choice(Const([]), Const([b'row']), Const([b'r', b'']), Const([e3.Query(b'q')]), Const([e3.Parse(b's', b'q', ()), e3.SynchronizeMessage]), Const((e3.CopyDoneMessage, e3.SynchronizeMessage)), Const([(b'a', None)]))
def copied(ms):
	return list(ms) if type(ms) is list else ms
def on_wire(ms):
	r = b''
	for m in ms:
		if type(m) is bytes:
			r = r + b'd' + be(4, len(m) + 4) + m
		elif type(m) is tuple:
			d = be(2, len(m)) + b''.join([b'\xff\xff\xff\xff' if f is None else be(4, len(f)) + f for f in m])
			r = r + b'D' + be(4, len(d) + 4) + d
		else:
			r = r + m.bytes()
	return r

@harness('P12', ['protocol.client3.Connection.standard_write_messages', 'protocol.client3.Connection.send_message_data'], paths=20000)
def writes(v):
	"messages are added once, after what is still to be sent; given again, only what is left is sent"
	x = Xact((xact3.Sending, None))
	s = Sock(v)
	c = connection(x, s)
	left = v.any('left', Bytes())
	earlier = [] if v.any('before', Choice('nothing', 'something')) == 'nothing' else [b'row']
	c.message_data = left
	c.writing = c.written = earlier
	again = v.any('again', Choice(True, False))
	ms = earlier if again else copied(v.any('messages', MESSAGES))
	if not again:
		v.assume(ms is not earlier)
	whole = left + (b'' if again else on_wire(ms))
	v.ghost(whole=whole, sock=s)
	o, r = v.outcome(c.write_messages, ms)
	v.eq(s.sent + c.message_data, whole, 'every byte once')
	v.check(c.writing is ms and c.written is ms, 'written')
	sent_result(v, o, r, s, x, c)

class Buffer(object):
	"the message buffer: takes the data, some time has a message"
	def __init__(self, v):
		self.v, self.got, self.none, self.has = v, b'', False, False
	def write(self, d):
		self.got = self.got + d
		self.none = False
	def has_message(self):
		self.has = self.v.any('has', Choice(True, False))
		self.none = not self.has
		return self.has
	def read(self):
		return MSGS
MSGS = ((b'Z', b'I'),)

@harness('P12', ['protocol.client3.Connection.read_into'])
def reads(v):
	"all bytes received reach the buffer, once and in order; the end of the stream or an error is a failed connection"
	x = Xact((xact3.Receiving, None))
	s = Sock(v)
	c = connection(x, s)
	c.message_buffer = s.asked = b = Buffer(v)
	pending = v.any('pending', Opt(Bytes(minlen=1)))
	c.read_data = pending
	p = b'' if pending is None else pending
	v.ghost(pending=p, sock=s, buffer=b)
	o, r = v.outcome(c.read_into)
	rest = c.read_data
	v.eq(b.got + (b'' if rest is None else rest), p + s.received, 'every byte once')
	read_result(v, o, r, s, x, b)
def read_result(v, o, r, s, x, b):
	if s.ended is None:
		v.check(o == 'ok' and r is True, 'a message is there')
		v.check(b.has, 'a message is there')
		v.check(x.fatal is None and x.state is not xact3.Complete, 'nothing failed')
	elif s.ended == 'again':
		v.check(o == 'raise' and isinstance(r, OSError), 'to be tried again')
		v.check(x.fatal is None and x.state is not xact3.Complete, 'nothing failed')
	else:
		v.check(o == 'ok' and r is False, 'nothing more')
		check_failed(v, x, s.ended)

@harness('P12', ['protocol.client3.Connection.standard_read_messages'])
def read_messages(v):
	"messages left are kept; else the next ones are taken from the buffer"
	c = connection(Xact((xact3.Receiving, None)), None)
	c.message_buffer = Buffer(v)
	left = v.any('left', Choice((), ((b'D', b'\0\0'), (b'Z', b'I'))))
	c.read = left
	r0 = v.any('read', Choice(True, False))
	calls = []
	def read_into():
		calls.append(1)
		return r0
	c.read_into = read_into
	r = c.read_messages()
	if left:
		v.check(c.read is left and not calls and r is True, 'those left')
	else:
		v.check(r is r0 and len(calls) == 1, 'read')
		if r0:
			v.check(c.read is MSGS, 'the next')

# ---- transitions
class Callee(object):
	"write_messages and read_messages of a connection by their contracts, and the operation of the transaction"
	def __init__(self, v, c, x):
		self.v, self.c, self.x = v, c, x
		self.ready = self.expected = self.failed = None
		self.ops = 0
		x.seen = 0
	def fail(self):
		self.x.state, self.x.fatal = xact3.Complete, True
		self.x.error_message = client3.eof_error
		self.failed = True
		return False
	def io(self, what):
		v = self.v
		v.check(not self.failed, 'nothing after a failure')
		how = v.any(what, Search(Choice('ok', 'failed', 'again', 'odd', 'bug'), lambda r, s: r.choice(('ok', 'ok', 'failed', 'again', 'odd', 'bug'))))
		if how == 'failed':
			return self.fail()
		if how == 'again':
			raise OSError(errno.EINTR, 'again')
		if how == 'odd':
			raise OSError(errno.EBADF, 'bad')
		if how == 'bug':
			raise ValueError('invalid message size')
		self.ready = what
		return True
	def write(self, ms):
		self.v.check(ms is self.x.messages, 'the messages of the transaction')
		self.v.check(self.x.state[0] is xact3.Sending, 'sending')
		return self.io('write')
	def read(self):
		self.v.check(self.x.state[0] is xact3.Receiving, 'receiving')
		if not self.c.read:
			if not self.io('read'):
				self.c.read = ()
				return False
			self.c.read = RECEIVED
		self.ready = 'read'
		return True
	def go(self, k):
		"the state after the operation"
		x = self.x
		if k in ('done', 'failed', 'fatal'):
			x.state = xact3.Complete
			x.fatal = {'done': None, 'failed': False, 'fatal': True}[k]
		else:
			x.state = (xact3.Sending, self.sent) if k == 'sending' else (xact3.Receiving, self.put)
	def sent(self):
		v = self.v
		v.check(self.ready == 'write', 'only after everything was sent')
		self.ready = None
		self.ops = self.ops + 1
		self.go(v.any('after', Search(Choice('sending', 'receiving', 'done', 'failed', 'fatal'), lambda r, s: r.choice(('sending', 'receiving', 'receiving', 'done', 'failed', 'fatal')))))
	def put(self, ms):
		v = self.v
		v.check(self.ready == 'read', 'only after something was read')
		v.check(ms is self.c.read and len(ms) > 0, 'the messages read')
		self.ready = None
		self.ops = self.ops + 1
		how = v.any('put', Search(Choice('ok', 'bug'), lambda r, s: r.choice(('ok', 'ok', 'ok', 'ok', 'bug'))))
		if how == 'bug':
			self.expected = ms
			raise ValueError('invalid message')
		n = v.any('taken', Choice(1, 2))
		n = min(n, len(ms))
		self.expected = ms[n:]
		k = v.any('after', Search(Choice('sending', 'receiving', 'done', 'failed', 'fatal'), lambda r, s: r.choice(('sending', 'receiving', 'receiving', 'done', 'failed', 'fatal'))))
		if k in ('done', 'failed'):
			self.x.last_ready = b'T'
		self.go(k)
		return n
RECEIVED = ('one', 'two')
LEFT = Choice((), ('left', 'over'))
START = Choice('sending', 'receiving')

def setting(v):
	x = Xact(None)
	x.messages = ['a message']
	c = connection(x)
	c.state = b'I'
	f = Callee(v, c, x)
	c.write_messages, c.read_messages = f.write, f.read
	c.read = v.any('left', LEFT)
	return c, x, f

@harness('P12', ['protocol.client3.Connection.step'])
def steps(v):
	"one transition: the operation follows only what was sent or received entirely"
	c, x, f = setting(v)
	k = v.any('state', Choice('sending', 'receiving', 'over'))
	f.go('done' if k == 'over' else k)
	left = c.read
	o, r = v.outcome(c.step)
	if k == 'over':
		v.check(o == 'raise', 'nothing to do')
		return
	v.check(f.ops <= 1, 'one step')
	v.eq(c.read, f.expected if f.expected is not None else c.read, 'messages taken once')
	if f.failed:
		v.check(o == 'ok' and f.ops == 0, 'nothing after a failure')
		v.check(x.state is xact3.Complete and x.fatal is True and c.xact is x, 'failed')
	elif o == 'raise':
		v.check(isinstance(r, ValueError) or r.errno == errno.EBADF, 'an error')
		v.check(c.xact is x, 'not completed')
	elif f.ops == 0:
		v.check(c.xact is x and x.fatal is None, 'to be tried again')
	else:
		v.check(c.xact is (None if x.state is xact3.Complete and x.fatal is not True else x), 'completed')
		if f.expected is not None:
			v.eq(c.state, getattr(x, 'last_ready', b'I'), 'transaction state')

@harness('P12', ['protocol.client3.Connection.complete'], seconds=400, paths=40000)
def completes(v):
	"transitions until it is over, whatever their number"
	c, x, f = setting(v)
	f.go(v.any('state', START))
	v.ghost(c=c, x=x, f=f)
	o, r = v.outcome(c.complete)
	if o == 'raise':
		v.check(isinstance(r, OSError) and r.errno == errno.EBADF, 'an error')
		v.check(c.xact is x and x.state is not xact3.Complete, 'not completed')
		return
	v.check(x.state is xact3.Complete, 'completed')
	v.check(c.xact is (x if x.fatal is True else None), 'unless it failed')
	if x.fatal is True and getattr(x, 'exception', None) is not None:
		v.check(x.error_message is client3.client_detected_protocol_error, 'reported')
		v.eq(c.state, b'', 'no transaction state')
	else:
		v.eq(c.state, getattr(x, 'last_ready', b'I'), 'transaction state')

@harness('P12', ['protocol.client3.Connection.push'])
def pushes(v):
	"the one before is completed, what is to be closed is closed, then it begins; not if the connection failed"
	before = v.any('before', Choice('none', 'ends', 'fails'))
	c = connection(None if before == 'none' else Xact((xact3.Sending, None)))
	old = c.xact
	log = []
	def complete():
		log.append('complete')
		if before == 'ends':
			c.xact = None
	trashed = v.any('trash', Choice('ends', 'fails'))
	def trash():
		log.append('trash')
		if trashed == 'fails':
			c.xact = Xact(xact3.Complete)
	def step():
		log.append('step')
	c.complete, c.take_out_trash, c.step = complete, trash, step
	g = v.any('garbage', Choice(((), ()), ((b'c',), ()), ((), (b's',))))
	c.garbage_cursors, c.garbage_statements = list(g[0]), list(g[1])
	x = Xact(v.any('state', Choice((xact3.Sending, None), xact3.Complete)))
	over = x.state == (None, None)
	if over:
		x.state = xact3.Complete
	c.push(x)
	if over:
		v.eq(log, [], 'nothing to do')
		v.check(c.xact is old, 'nothing to do')
		return
	want = [] if before == 'none' else ['complete']
	if before == 'fails':
		v.check(c.xact is old, 'not begun')
	else:
		if g[0] or g[1]:
			want.append('trash')
		if 'trash' in want and trashed == 'fails':
			v.check(c.xact is not x, 'not begun')
		else:
			want.append('step')
			v.check(c.xact is x, 'begun')
	v.eq(log, want, 'in order')

@harness('P12', ['protocol.client3.Connection.take_out_trash', 'protocol.client3.Connection.synchronize'])
def trash(v):
	"everything to be closed is closed once, and what comes meanwhile later"
	cs, ss = v.any('cursors', Choice((), (b'c',), (b'c', b'd'))), v.any('statements', Choice((), (b's',), (b's', b't')))
	c = connection(None)
	c.garbage_cursors, c.garbage_statements = list(cs), list(ss)
	seen = []
	def complete():
		seen.append([type(m).__name__ for m in c.xact.commands])
		seen.append([m.data for m in c.xact.commands[:-1]])
		c.garbage_cursors.append(b'new')
		c.xact = None
	c.complete = complete
	c.take_out_trash()
	v.eq(seen, [['ClosePortal'] * len(cs) + ['CloseStatement'] * len(ss) + ['Synchronize'], list(cs) + list(ss)], 'closed')
	v.eq(c.garbage_cursors, [b'new'], 'the rest')
	v.eq(c.garbage_statements, [], 'the rest')
	del seen[:]
	c.synchronize()
	v.eq(seen, [['Synchronize'], []], 'synchronised')

@harness('P12', ['protocol.client3.Connection.interrupt'])
def interrupts(v):
	"the cancel request goes out on a connection of its own, which is closed"
	pid, key = v.any('pid', U32), v.any('key', U32)
	fails = v.any('fails', Choice(False, True))
	log = []
	class S(object):
		def sendall(self, d):
			log.append(d)
			if fails:
				raise OSError(errno.EPIPE, 'broken')
		def close(self):
			log.append('closed')
	c = connection(None, None)
	c.backend_id, c.key = pid, key
	asked = []
	def factory(timeout=None):
		asked.append(timeout)
		return S()
	c.socket_factory = factory
	o, r = v.outcome(c.interrupt, 5)
	v.check((o == 'raise') == fails, 'reported')
	v.eq(asked, [5], 'one connection')
	v.eq(len(log), 2, 'one request')
	v.eq(log[0], b'\0\0\0\x10\x04\xd2\x16\x2e' + be(4, pid) + be(4, key), 'the request')
	v.eq(log[1], 'closed', 'closed')

# ---- the whole, with the real buffers, messages and transactions
EXCHANGES = (
	(('Query',), [b'T\0\0\0\6\0\0', b'D\0\0\0\6\0\0', b'D\0\0\0\x0b\0\1\0\0\0\1x', b'C\0\0\0\x0bSELECT\0', b'Z\0\0\0\5I']),
	(('Query',), [b'E\0\0\0\x18SERROR\0C42601\0Mbad\0\0', b'Z\0\0\0\5E']),
	(('Sync',), [b'Z\0\0\0\5T']),
	(('Query',), [b'H\0\0\0\7\0\0\0', b'd\0\0\0\6ab', b'd\0\0\0\4', b'c\0\0\0\4', b'C\0\0\0\x09COPY\0', b'Z\0\0\0\5I']),
	(('Parse', 'Sync'), [b'1\0\0\0\4', b'N\0\0\0\x06S\0', b'Z\0\0\0\5I']),
)
EXCHANGES = tuple((k, [m for m in ms if m[:1] != b'N']) for k, ms in EXCHANGES)
COMMANDS = {'Query': e3.Query(b'select'), 'Sync': e3.SynchronizeMessage, 'Parse': e3.Parse(b's', b'select', ())}
class Wire(object):
	"a server that answers as it should over a socket that cuts as it likes, and may fail at any operation"
	def __init__(self, r, fault, at):
		self.r, self.fault, self.at, self.ops, self.sent, self.replies, self.failed = r, fault, at, 0, b'', b'', False
	def trouble(self):
		self.ops += 1
		if self.failed:
			raise AssertionError('used after the failure')
		if self.fault and self.ops == self.at:
			if self.fault == 'eof':
				self.failed = True
				return True
			if self.fault != 'again':
				self.failed = True
			raise error_of(self.fault)
		return False
	def send(self, d):
		if self.trouble():
			raise error_of('fatal')
		n = min(len(d), self.r.choice((1, 2, 5, 1000)))
		self.sent += d[:n]
		return n
	def recv(self, n):
		if self.trouble() or not self.replies:
			self.failed = True
			return b''
		n = min(n, self.r.choice((1, 2, 3, 7, 20, 1000)))
		d, self.replies = self.replies[:n], self.replies[n:]
		return d

@harness('P12', ['protocol.client3.Connection.' + f for f in ('push', 'step', 'complete', 'read_into', 'send_message_data', 'standard_write_messages')], mode='sampled', runs=4000, bound='random conversations of up to 4 exchanges, one fault at most')
def transport(v):
	"the real connection: bytes out are the messages, replies in are those of the server, a fault is never a completed exchange"
	import random
	es, fault, at, stepping, seed = v.any('scenario', Search('scenario', lambda r, n: ([r.randrange(len(EXCHANGES)) for i in range(r.randrange(1, 5))], r.choice((None, None, 'fatal', 'odd', 'again', 'eof')), r.randrange(1, 25), r.random() < .3, r.randrange(10**6))))
	w = Wire(random.Random(seed), fault, at)
	c = connection(None, w)
	c.state = b'I'
	expected = b''
	for k in es:
		kinds, replies = EXCHANGES[k]
		x = xact3.Instruction([COMMANDS[j] for j in kinds])
		new = b''.join([COMMANDS[j].bytes() for j in kinds])
		w.replies = b''.join(replies)
		c.push(x)
		if stepping:
			for i in range(200):
				if c.xact is None or x.state is xact3.Complete:
					break
				c.step()
		if c.xact is not None:
			c.complete()
		expected += new
		if w.failed:
			v.check(x.fatal is True and x.state is xact3.Complete and c.xact is x, 'a failure is no completed exchange')
			v.check(expected.startswith(w.sent), 'bytes out')
			return
		v.check(x.state is xact3.Complete and c.xact is None, 'completed')
		v.eq(w.sent, expected, 'bytes out, once and in order')
		v.eq(w.replies, b'', 'all replies read')
		got = b''.join([b'd' + be(4, len(m) + 4) + m if type(m) is bytes else e3.Tuple(m).bytes() if type(m) is tuple else m.bytes() for m in x.messages_received()])
		v.eq(got, b''.join([m for m in replies if m[:1] != b'E']), 'replies in order')
		v.eq(c.state, replies[-1][-1:], 'transaction state')
		v.check((x.fatal is False) == (replies[0][:1] == b'E'), 'errors')
