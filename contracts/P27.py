import errno, random, struct
from pyvc.api import *
from contracts.common import *
from postgresql import copyman
from postgresql import exceptions as pg_exc
from postgresql.driver import pq3
from postgresql.protocol import element3 as e3, xact3, client3
from postgresql.python.socket import SocketFactory

DRIVER = pq3.Driver()
CM = 'copyman.CopyManager.'
class Broken(Exception):
	"what a receiver or a producer raises"

CONTENTS = b''.join

# ---------------------------------------------------------------- one step, in any state
@harness('P27', [CM + '__next__', CM + '_service_producer', CM + '_service_receivers', 'copyman.IteratorProducer.__next__', 'copyman.CallReceiver.accept', 'copyman.CallReceiver.transmit', 'copyman.NullReceiver.accept', 'copyman.NullReceiver.transmit', 'copyman.CopyTransformer.__call__'], paths=4000)
def step(v):
	"a cycle gives the next chunk to every receiver, once, and adds what it held to the totals; a receiver that fails keeps its chunk and is set aside, the others get theirs"
	chunk = v.any('chunk', Seq(Bytes()))
	got = {}
	fails = v.any('which fail', Choice((), (0,), (1,), (0, 1)))
	def call(k):
		def f(lines):
			if k in failing:
				raise Broken(k)
			got.setdefault(k, []).append(lines)
		return f
	failing = set(fails)
	producer = copyman.IteratorProducer(iter([chunk, [b'next']]))
	m0 = producer.total_messages = v.any('messages before', Int(0))
	b0 = producer.total_bytes = v.any('bytes before', Int(0))
	rs = [copyman.CallReceiver(call(0)), copyman.CallReceiver(call(1)), copyman.NullReceiver()]
	cm = copyman.CopyManager(producer, *rs)
	cm.__enter__()
	o, r = v.outcome(cm.__next__)
	v.eq(producer.total_messages, m0 + size(chunk), 'messages')
	sent = producer.total_bytes - b0
	v.eq(sent, size(CONTENTS(chunk)), 'bytes')
	for k in (0, 1):
		v.check((rs[k] in cm.receivers) == (k not in fails), 'set aside when it fails')
		if k in fails:
			v.check(k not in got, 'nothing was taken')
		else:
			v.check(len(got[k]) == 1, 'once')
			v.eq(got[k][0], chunk, 'the rows')
	v.check(rs[2] in cm.receivers, 'the others stay')
	if not fails:
		v.check(o == 'ok', 'no fault')
		v.eq(r[0], size(chunk), 'messages of the cycle')
		v.eq(r[1], sent, 'bytes of the cycle')
	else:
		v.check(o == 'raise' and type(r) is copyman.ReceiverFault, 'the fault is raised')
		v.check(set(r.faults) == set(rs[k] for k in fails), 'of those that failed')
		for k in fails:
			v.check(type(r.faults[rs[k]]) is Broken, 'with its reason')
		# recover them
		for k in fails:
			if v.any('reconciled', Choice(True, False)):
				failing.discard(k)
				cm.reconcile(rs[k])
				v.check(len(got[k]) == 1 and rs[k] in cm.receivers, 'reconciled')
				v.eq(got[k][0], chunk, 'it gets the rows it missed')
		o, r = v.outcome(cm.__next__)
		if o == 'ok':
			v.eq(r[0], size(chunk) + 1, 'messages of both cycles')
			v.eq(r[1], sent + 4, 'bytes of both cycles')
		for k in (0, 1):
			v.check((len(got[k]) == 2) if rs[k] in cm.receivers else k not in got, 'the next chunk too')

@harness('P27', ['copyman.ProtocolReceiver.accept', 'copyman.ProtocolReceiver.transmit'])
def transmits(v):
	"what is accepted is sent whole, in order, however little the wire takes at a time; what a failure left is sent when it goes on"
	data = v.any('data', Bytes())
	sock = Wire27(v)
	v.ghost(data=data, sock=sock)
	r = Plain(sock.send)
	r.accept(data)
	o, x = v.outcome(r.transmit)
	if o == 'raise':
		v.check(type(x) is Broken, 'the failure of the wire')
		v.eq(sock.sent + r.view, data, 'the rest is kept')
	else:
		v.eq(sock.sent, data, 'everything')
		v.check(size(r.view) == 0, 'nothing is left')
class Plain(copyman.ProtocolReceiver):
	_e_factors = ()
	state = 'x'
class Wire27(object):
	def __init__(self, v):
		self.v, self.sent = v, b''
	def send(self, view):
		v = self.v
		if v.any('fails', Search(Bool(), lambda r, s: r.random() < .1)):
			raise Broken()
		n = v.any('takes', Search(Int(1), lambda r, s: r.choice((1, 2, 3, 50))))
		if v.symbolic:
			v.assume(n <= size(view))
		else:
			n = min(n, len(view))
		self.sent = self.sent + view[:n]
		return n

# ---------------------------------------------------------------- realignment
class Fixed(copyman.ProtocolProducer):
	state = 'x'
	_e_factors = ()
	def recover(self, view):
		self.recovered = view
		self.nextchunk = self.over
	def over(self):
		raise StopIteration
@harness('P27', ['copyman.ProtocolProducer.realign'], paths=400)
def realigns(v):
	"inside a message: the producer is given what makes the rest of the message one, the receivers are given what makes theirs whole"
	p = Fixed(None, 8)
	where = v.any('where', Choice('nowhere', 'between', 'in a header', 'in a message'))
	if where != 'nowhere':
		s = p._state = copyman.WireState()
	if where == 'nowhere':
		p.realign()
		o, r = v.outcome(p.__next__)
		v.check(o == 'raise' and type(r) is StopIteration, 'nothing to give')
		return
	if where == 'in a message':
		n = v.any('remaining', Int(1, 5000))
		s.remaining_bytes = n
		p.realign()
		pad = p.__next__()
		v.eq(size(pad), n, 'the rest of the message')
		v.eq(p.recovered, e3.CopyData.type + be(4, n + 4), 'the header of the rest')
	elif where == 'in a header':
		f = v.any('fragment', Search(Choice(b'', b'\0', b'\0\0', b'\0\0\0', b'\0\0\1', b'\0\0\x50', b'\0\1'), lambda r, s: r.choice((b'', b'\0', b'\0\0', b'\0\0\0', b'\0\0\1', b'\0\0\x50', b'\0\1'))))
		s.remaining_bytes, s.size_fragment = -1, f
		p.realign()
		o, pad = v.outcome(p.__next__)
		v.check(o == 'ok', 'the rest')
		whole = f + bytes(pad)
		v.check(len(whole) >= 4, 'a size')
		v.check(struct.unpack('!L', whole[:4])[0] == len(whole), 'a whole message')
		v.eq(p.recovered, e3.CopyData.type + f, 'the header so far')
	else:
		s.remaining_bytes = 0
		p.realign()
		v.check(bytes(p.recovered) == b'', 'nothing to give')
	o, r = v.outcome(p.__next__)
	v.check(o == 'raise' and type(r) is StopIteration, 'no more')

# ---------------------------------------------------------------- whole operations on iterators
def rows_of(chunks):
	return [x for c in chunks for x in c]

@harness('P27', ['copyman.CopyManager', 'copyman.IteratorProducer', 'copyman.CallReceiver'], mode='bounded', paths=60000, seconds=200, bound='at most 3 chunks, two receivers; each of which may fail at each chunk, and be reconciled or not; the producer may fail at each; the loop may be left at each')
def operations(v):
	"a COPY that ends well gave everything to every receiver still in it; any other raises CopyFail"
	n = v.any('chunks', Choice(0, 1, 2, 3))
	chunks = [[b'r%d' % i, b's'][:i] for i in range(n)]
	taken = {0: [], 1: []}
	class Left(Exception):
		pass
	broke = []
	def produce():
		for c in chunks:
			if not broke and v.any('the producer fails', Choice(False, True)):
				broke.append(1)
				raise Broken()
			yield c
	def call(k):
		def f(lines):
			if not broke and v.any('fails %d' % k, Choice(False, True)):
				broke.append(1)
				raise Broken()
			taken[k].extend(lines)
		return f
	p = copyman.IteratorProducer(produce())
	rs = [copyman.CallReceiver(call(k)) for k in (0, 1)]
	cm = copyman.CopyManager(p, *rs)
	how = v.any('how', Choice('run', 'iterate'))
	total = [0, 0]
	dropped = []
	left = [False]
	def iterate():
		with cm as copy:
			while True:
				try:
					for m, b in copy:
						total[0] += m
						total[1] += b
						if not left[0] and not broke and v.any('leave', Choice('no', 'break', 'raise')) != 'no':
							left[0] = True
							if v.any('by', Choice('break', 'raise')) == 'raise':
								raise Left()
							break
					break
				except copyman.ReceiverFault as e:
					for x in e.faults:
						if v.any('reconcile', Choice(True, False)):
							copy.reconcile(x)
						else:
							dropped.append(x)
	o, r = v.outcome(cm.run if how == 'run' else iterate)
	rows = rows_of(chunks)
	for k in (0, 1):
		v.check(taken[k] == rows[:len(taken[k])], 'in order, once')
	if o == 'ok':
		v.check(not left[0], 'left before the end is no success')
		v.check(len(dropped) < 2, 'without receivers it is no success')
		for k in (0, 1):
			v.check(rs[k] in dropped or taken[k] == rows, 'everything')
		v.check(p.total_messages == len(rows) and p.total_bytes == sum(map(len, rows)), 'totals')
		if how != 'run' and not broke:
			v.check(total == [len(rows), sum(map(len, rows))], 'totals of the cycles')
	else:
		v.check(type(r) is copyman.CopyFail, 'CopyFail')
		v.check(broke or left[0], 'with a reason')
	if not broke and not left[0]:
		v.check(o == 'ok', 'nothing went wrong')

# ---------------------------------------------------------------- whole operations on connections
def M(t, d=b''):
	return t + struct.pack('!L', len(d) + 4) + d
NOTICE = M(b'N', b'SNOTICE\0C00000\0Mhello\0\0')
ERROR = M(b'E', b'SERROR\0C57014\0Mcanceled\0\0')

GREETING = b''.join((M(b'R', b'\0\0\0\0'), M(b'S', b'server_version\x0016.1\0'), M(b'S', b'standard_conforming_strings\0on\0'), M(b'S', b'client_encoding\0UTF8\0'), M(b'K', struct.pack('!LL', 1, 2)), M(b'Z', b'I')))

class Server(object):
	"""
	a socket, and the server behind it: COPY TO sends `rows`, COPY FROM takes rows
	into `stored` and commits them on CopyDone; cuts, partial writes, asynchronous
	messages, errors and disconnections as the generator says
	"""
	def __init__(self, rng, rows=None, asyncs=0, fail_at=None, lose_at=None):
		self.rng, self.rows = rng, rows
		self.asyncs, self.fail_at, self.lose_at = asyncs, fail_at, lose_at
		self.inb, self.out, self.mode, self.skip = b'', b'', None, False
		self.stored, self.committed, self.notified = [], None, []
		self.todo = None
		self.closed, self.cancelled, self.ncopied = False, 0, 0
		self.sent_bytes = 0
		self.raised = self.started = False
	# -- the socket
	def pick(self, n):
		return min(n, self.rng.choice((1, 2, 3, 4, 5, 6, 7, 11, 30, 100, 1000)))
	def send(self, data):
		if self.closed:
			raise OSError(errno.EPIPE, 'broken pipe')
		data = bytes(data)
		n = self.pick(len(data))
		self.sent_bytes += n
		if self.lose_at is not None and self.sent_bytes > self.lose_at and self.mode == 'in':
			self.closed = True
			raise OSError(errno.ECONNRESET, 'connection reset')
		self.inb += data[:n]
		self.serve()
		return n
	def sendall(self, data):
		while data:
			data = data[self.send(data):]
	def recv(self, n):
		if self.closed:
			return b''
		while not self.out and self.todo is not None:
			self.generate()
		if self.rng.random() < .5:
			for i in range(self.rng.randrange(9)):
				self.generate()
		if not self.out:
			raise Hang('nothing will be received')
		n = self.pick(min(n, len(self.out)))
		d, self.out = self.out[:n], self.out[n:]
		return d
	def recv_into(self, buf, n):
		d = self.recv(n)
		buf[:len(d)] = d
		return len(d)
	def close(self):
		self.closed = True
	def cancel(self):
		"as at any moment: perhaps too late"
		self.cancelled += 1
		if self.todo is not None and self.rng.random() < .5:
			self.todo = None
			self.out += ERROR
			self.raised = True
			self.out += M(b'Z', b'I')
			self.mode = None
	# -- the server
	def some_async(self):
		if self.rng.random() < self.asyncs:
			if self.rng.random() < .5:
				self.out += NOTICE
			else:
				k = len(self.notified)
				self.notified.append(('chan', 'p%d' % k, k))
				self.out += M(b'A', struct.pack('!L', k) + b'chan\0' + b'p%d\0' % k)
	def generate(self):
		"the next message of a COPY TO"
		if self.todo is None:
			return
		self.some_async()
		if self.fail_at is not None and self.ncopied == self.fail_at:
			self.out += ERROR + M(b'Z', b'I')
			self.raised = True
			self.todo = None
			return
		if self.todo:
			self.out += M(b'd', self.todo[0])
			self.ncopied += 1
			self.todo = self.todo[1:]
			return
		self.todo = None
		self.out += M(b'c') + M(b'C', b'COPY %d\0' % len(self.rows))
		self.some_async()
		self.out += M(b'Z', b'I')
		self.some_async()
	def serve(self):
		if not self.started:
			n = struct.unpack('!L', self.inb[:4])[0] if len(self.inb) >= 4 else 4
			if len(self.inb) < n or n < 8:
				return
			self.started, self.inb = True, self.inb[n:]
			self.out += GREETING
		while len(self.inb) >= 5:
			n = struct.unpack('!L', self.inb[1:5])[0] + 1
			if len(self.inb) < n:
				return
			t, d, self.inb = self.inb[:1], self.inb[5:n], self.inb[n:]
			self.message(t, d)
	def message(self, t, d):
		if self.mode == 'in':
			if t == b'd':
				self.stored.append(d)
				if self.fail_at is not None and len(self.stored) > self.fail_at or b'\0' in d:
					self.error()
			elif t == b'c':
				self.committed = self.stored
				self.out += M(b'C', b'COPY %d\0' % len(self.stored))
				self.mode = None
			elif t == b'f':
				self.error()
			elif t in b'SH':
				pass
			else:
				self.error()
			return
		if t in b'dcf':
			return
		if self.skip and t != b'S':
			return
		if t == b'B':
			self.out += M(b'2')
		elif t == b'E':
			if self.rows is not None:
				self.out += M(b'H', b'\0\0\0')
				self.todo = list(self.rows)
				self.some_async()
			else:
				self.out += M(b'G', b'\0\0\0')
				self.mode, self.stored = 'in', []
		elif t == b'S':
			self.skip = False
			if self.todo is None:
				self.out += M(b'Z', b'I')
		elif t == b'C':
			self.out += M(b'3')
		elif t == b'Q':
			self.out += M(b'I') + M(b'Z', b'I')
	def error(self):
		self.mode, self.skip = None, True
		self.out += ERROR
		self.raised = True
class Hang(BaseException):
	pass

class Factory(SocketFactory):
	def __init__(self, server):
		super().__init__((2, 1), ('h', 5432))
		self.server = server
	def __call__(self, timeout=None):
		if not self.server.started:
			return self.server
		return Canceller(self.server)
class Canceller(object):
	def __init__(self, server):
		self.server = server
	def sendall(self, data):
		self.server.cancel()
	def close(self):
		pass

class FakeBinding(object):
	def __init__(self, db, lib):
		pass
	def startup_data(self):
		return ('PostgreSQL 16.1 on x', None, None, None)
	startup_data_92 = startup_data_only_version = startup_data
class Connector(pq3.IP4):
	def socket_factory_sequence(self):
		return self._factories
class DB(pq3.Connection):
	"connected, by the driver itself, to `server`"
	def __init__(self, server):
		connector = Connector(host='h', port=5432, user='u', sslmode='disable', driver=DRIVER)
		connector._factories = (Factory(server),)
		super().__init__(connector)
		pq3.pg_lib.Binding = FakeBinding
		self.connect()
		self.pq.recvsize = server.rng.choice((1, 7, 64, 8192))
	def print_message(self, *a):
		pass
	def msghook(self, msg):
		return True
def statement(db):
	s = pq3.Statement(db, 'given', None)
	s.closed = False
	s._input = s._input_io = s._input_formats = ()
	s._output = None
	s._row_constructor = None
	return s

def some_rows(rng):
	n = rng.choice((0, 1, 2, 3, 5, 20, 60))
	return [bytes(rng.choice(b'abc\n') for j in range(rng.choice((0, 1, 1, 2, 5, 30)))) for i in range(n)]

def usable(v, db, what):
	o, r = v.outcome(db.execute, '')
	if o != 'ok' and db.pq.socket.raised and getattr(r, 'code', '') == '57014':
		# an error whose end was not yet received when it was raised is raised once more
		o, r = v.outcome(db.execute, '')
	v.check(o == 'ok', what)

@harness('P27', ['copyman', 'driver.pq3.SingleXactCopy', 'driver.pq3.FetchAll.__next__', 'protocol.xact3.Instruction'], mode='sampled', runs=4000, conc_seconds=60, bound='up to 60 rows, 3 receivers, random cuts, messages in between, faults')
def transfers(v):
	"between connections and calls: whole or failed, and the connections usable afterwards"
	rng = random.Random(v.any('seed', Search(0, lambda r, s: r.getrandbits(30))))
	rows = some_rows(rng)
	trouble = rng.random() < .6
	source = Server(rng, rows, asyncs=rng.choice((0, 0, .1, .5)), fail_at=rng.randrange(len(rows) + 1) if trouble and rng.random() < .3 else None)
	src = DB(source)
	producer = copyman.StatementProducer(statement(src), buffer_size=rng.choice((1, 5, 16, 128, 4096)))
	servers, rs, calls, hurt = [], [], [], []
	for i in range(rng.randrange(1, 4)):
		k = rng.random()
		if k < .6:
			s = Server(rng, None, fail_at=rng.randrange(len(rows) + 1) if trouble and rng.random() < .15 else None,
				lose_at=rng.randrange(400) if trouble and rng.random() < .2 else None)
			db = DB(s)
			r = copyman.StatementReceiver(statement(db))
			servers.append((s, db, r))
		elif k < .9:
			got = []
			bad = [rng.randrange(6)] if trouble and rng.random() < .3 else []
			def call(lines, got=got, bad=bad):
				if bad and bad[0] == 0:
					bad.clear()
					hurt.append(1)
					raise Broken()
				if bad:
					bad[0] -= 1
				got.extend(lines)
			r = copyman.CallReceiver(call)
			calls.append((got, r))
		else:
			r = copyman.NullReceiver()
		rs.append(r)
	cm = copyman.CopyManager(producer, *rs)
	leave = rng.randrange(8) if trouble and rng.random() < .4 else None
	by = rng.choice(('break', 'raise'))
	total, dropped, left, faults = [0, 0], [], [], []
	class Left(Exception):
		pass
	def go():
		i = 0
		with cm as copy:
			while copy.receivers:
				try:
					for m, b in copy:
						total[0] += m
						total[1] += b
						if i == leave:
							left.append(1)
							if by == 'raise':
								raise Left()
							return
						i += 1
					break
				except copyman.ReceiverFault as e:
					faults.append(e)
					for x, why in e.faults.items():
						if type(why) is Broken and rng.random() < .7:
							copy.reconcile(x)
						else:
							dropped.append(x)
				except copyman.ProducerFault:
					raise
	try:
		o, r = v.outcome(cm.run if leave is None and rng.random() < .4 else go)
	except Hang:
		v.fail('it does not wait for what never comes')
		return
	for got, rec in calls:
		v.check(got == rows[:len(got)], 'in order, once')
	for s, db, rec in servers:
		v.check(s.committed is None or s.committed == rows, 'what is committed is everything')
	if o == 'ok':
		v.check(not left, 'left before the end is no success')
		v.check(len(dropped) < len(rs), 'without receivers it is no success')
		for got, rec in calls:
			v.check(rec in dropped or got == rows, 'everything')
		for s, db, rec in servers:
			if rec not in dropped:
				v.check(s.committed == rows, 'everything, committed')
				v.check(rec.count() == len(rows) and rec.command() == 'COPY', 'its count')
		v.check(producer.count() == len(rows) and producer.command() == 'COPY', 'the count of the source')
		v.check(producer.total_messages == len(rows), 'messages')
		v.check(producer.total_bytes == sum(len(x) + 5 for x in rows), 'bytes')
		if total[0] and not faults:
			v.check(total == [len(rows), sum(len(x) + 5 for x in rows)], 'totals of the cycles')
	else:
		v.check(type(r) is copyman.CopyFail or producer._chunks is None and source.raised and isinstance(r, pg_exc.Error), 'CopyFail')
		reason = left or faults or source.raised or any(s.raised or s.closed for s, db, rec in servers) or hurt
		v.check(reason, 'with a reason')
	try:
		usable(v, src, 'the source is usable')
		for s, db, rec in servers:
			if not s.closed and rec not in dropped:
				usable(v, db, 'the target is usable')
	except Hang:
		v.fail('it does not wait for what never comes')
	v.check([(n.channel.decode(), n.payload.decode(), n.pid) for n in src._notifies] == source.notified[:len(src._notifies)], 'notifications in order')
	if not source.raised:
		v.check(len(src._notifies) == len(source.notified), 'notifications')

@harness('P27', ['driver.pq3.Statement.load_chunks', 'driver.pq3.Statement._load_copy_chunks', 'driver.pq3.Statement.load_rows', 'protocol.xact3.Instruction.sent_from_stdin'], mode='sampled', runs=2500, conc_seconds=30, bound='up to 60 rows')
def loads(v):
	"loading rows: all committed, or none"
	rng = random.Random(v.any('seed', Search(0, lambda r, s: r.getrandbits(30))))
	rows = some_rows(rng)
	s = Server(rng, None, fail_at=rng.randrange(len(rows) + 1) if rng.random() < .2 else None)
	db = DB(s)
	st = statement(db)
	stop = rng.randrange(len(rows) + 1) if rng.random() < .3 else None
	def gen():
		for i, x in enumerate(rows):
			if i == stop:
				raise Broken()
			yield x
	same = rng.random() < .2
	try:
		if rng.random() < .5:
			o, r = v.outcome(st.load_rows, gen(), chunksize=rng.choice((1, 2, 7, 256)))
		else:
			n = rng.choice((1, 2, 7, 256))
			def chunks():
				l = []
				for x in gen():
					l.append(x)
					if len(l) == n:
						yield l
						if same:
							l.clear()
						else:
							l = []
				yield l
			o, r = v.outcome(st.load_chunks, chunks())
		if o == 'ok':
			v.check(s.committed == rows, 'everything is committed')
			v.check(stop is None or stop == len(rows), 'the source did not fail')
		else:
			v.check(not s.committed, 'nothing is committed')
			v.check((type(r) is Broken) if stop is not None and type(r) is Broken else isinstance(r, pg_exc.Error), 'the reason is raised')
			v.check(type(r) is Broken or s.raised, 'with a reason')
			o, r = v.outcome(db.execute, '')
			if o == 'raise':
				usable(v, db, 'the connection is usable')
		v.check(o != 'ok' or s.mode is None, 'the COPY is over')
		usable(v, db, 'the connection is usable')
		v.check(not s.committed or s.committed == rows, 'what is committed is everything')
	except Hang:
		v.fail('it does not wait for what never comes')

@harness('P27', ['driver.pq3.Statement.chunks', 'driver.pq3.Statement.rows', 'driver.pq3.SingleXactCopy'], mode='sampled', runs=2500, conc_seconds=30, bound='up to 60 rows')
def reads(v):
	"reading a COPY through the statement: every row once, in order, or an error"
	rng = random.Random(v.any('seed', Search(0, lambda r, s: r.getrandbits(30))))
	rows = some_rows(rng)
	s = Server(rng, rows, asyncs=rng.choice((0, .2)), fail_at=rng.randrange(len(rows) + 1) if rng.random() < .2 else None)
	db = DB(s)
	st = statement(db)
	got = []
	def read():
		if how == 'chunks':
			for c in st.chunks():
				got.extend(c)
		elif how == 'rows':
			for x in st.rows():
				got.append(x)
		else:
			got.extend(st())
	how = rng.choice(('chunks', 'rows', 'call'))
	try:
		o, r = v.outcome(read)
		v.check(got == rows[:len(got)], 'in order, once')
		if o == 'ok':
			v.check(got == rows and not s.raised, 'everything')
		else:
			v.check(isinstance(r, pg_exc.Error) and s.raised, 'the error of the server')
		usable(v, db, 'the connection is usable')
		v.check([(n.channel.decode(), n.payload.decode(), n.pid) for n in db._notifies] == s.notified, 'notifications')
	except Hang:
		v.fail('it does not wait for what never comes')
