import itertools, sys
from pyvc.api import *
from contracts.common import *
from postgresql.driver import pq3, dbapi20
from postgresql import exceptions as pg_exc
from postgresql.protocol import element3 as e3, xact3
from postgresql.protocol.message_types import message_types

DRIVER = pq3.Driver()
def T(k):
	return message_types[ord(k)]

# ---- positions: what the commands sent do to a cursor of n rows, by the documentation of PostgreSQL
# (0 is before the first row, n + 1 after the last)
def clamp(p, n):
	return ite(p < 0, 0, ite(p > n + 1, n + 1, p))
def minimum(a, b):
	return ite(a < b, a, b)
def maximum(a, b):
	return ite(a > b, a, b)
def words(q):
	return [w for w in q.decode('ascii').split(' ') if w]
def effect(ws, p, n):
	"MOVE or FETCH: (rows from, to, step, position)"
	d = ws[1].upper()
	if d == 'NEXT':
		d, k = 'FORWARD', 1
	elif d == 'LAST':
		return None, None, 1, n
	elif ws[2] == 'ALL':
		return (p + 1, n, 1, n + 1) if d == 'FORWARD' else (minimum(p, n + 1) - 1, 1, -1, ite(p >= 0, 0, 0))
	else:
		k = int(ws[2])
	if d == 'ABSOLUTE':
		return None, None, 1, ite(k >= 0, minimum(k, n + 1), maximum(n + 1 + k, 0))
	if d == 'BACKWARD':
		d, k = 'FORWARD', -k
	if k >= 0:
		return p + 1, minimum(p + k, n), 1, minimum(p + k, n + 1)
	return p - 1, maximum(p + k, 1), -1, maximum(p + k, 0)

class PQ(object):
	socket = None
	def __init__(self, serve):
		self.xact, self.serve, self.state, self.pushed = None, serve, b'I', 0
	def push(self, x):
		self.pushed += 1
		self.xact = x
	def complete(self):
		x = self.xact
		self.serve(x)
		if x.fatal is not True:
			self.xact = None
	def register_cursor(self, c, i):
		pass
	def trash_cursor(self, i):
		pass
class DB(pq3.Connection):
	closed = False
	def __init__(self, serve):
		super().__init__(pq3.IP4(host='h', port=5432, user='u', driver=DRIVER))
		self.pq = PQ(serve)

def cursor(v, n, p, rows):
	"a cursor at position p of n rows, and what is done to it"
	now = [p]
	done = []
	def serve(x):
		# moves one after the other
		replies = []
		for m in x.messages:
			if type(m) is e3.Parse:
				ws = words(m.statement)
				v.check(ws[-2:] == ['IN', '"c"'], 'the cursor')
				a, b, s, q = effect(ws, now[0], n)
				done.append((ws[0], a, b, s))
				now[0] = q
				if ws[0] == 'FETCH':
					replies = [e3.BindCompleteMessage] + list(rows) + [e3.Complete(b'FETCH 1')]
				else:
					replies = replies + [e3.Complete(b'MOVE 1')]
		x.completed = [(None, replies)]
		x.state = xact3.Complete
		x.fatal = None
	db = DB(serve)
	c = pq3.Cursor.__new__(pq3.Cursor)
	c.database, c.statement, c.parameters = db, None, None
	c.__dict__['direction'] = True
	c._quoted_cursor_id, c._pq_cursor_id, c._output_formats = '"c"', b'c', ()
	c._output_io, c._row_constructor = (unpack,), list
	return c, db, now, done
def unpack(b):
	return b

@harness('P15', ['driver.pq3.Cursor.seek', 'driver.pq3.Cursor._pq_xp_move', 'driver.pq3.Cursor.direction'], paths=20000)
def seeks(v):
	"a cursor reading backwards is one over the rows in reverse order; every seek moves to the position documented, in any position of any result"
	n, p = v.any('rows', Int(0)), v.any('position', Int(0))
	v.assume(p <= n + 1)
	d = v.any('direction', Choice(True, False, 'FORWARD', 'BACKWARD'))
	forward = d in (True, 'FORWARD')
	whence = v.any('whence', Choice('ABSOLUTE', 'RELATIVE', 'FROM_END', 'FORWARD', 'BACKWARD', 0, 1, 2, 3, 4, 'absolute', 'backward', None))
	everything = v.any('all', Choice(False, True))
	k = 'ALL' if everything else v.any('offset', Int())
	c, db, now, done = cursor(v, n, p, ())
	c.direction = d
	v.check(c.direction is forward, 'direction')
	if whence is None:
		o, r = v.outcome(c.seek, k, None)
		v.check(o == 'raise' and type(r) is TypeError and db.pq.pushed == 0, 'refused')
		return
	w = ('ABSOLUTE', 'RELATIVE', 'FROM_END', 'FORWARD', 'BACKWARD')[whence] if type(whence) is int else whence.upper()
	if w in ('ABSOLUTE', 'FROM_END') and not everything:
		# negative ones have no documented meaning
		v.assume(k >= 0)
	o, r = v.outcome(c.seek, k, whence)
	v.check(o == 'ok', 'moved')
	at = p if forward else n + 1 - p
	if everything:
		want = 0 if w == 'BACKWARD' else n + 1
	elif w == 'ABSOLUTE':
		want = minimum(k, n + 1)
	elif w == 'FROM_END':
		want = maximum(n + 1 - k, 0)
	elif w == 'BACKWARD':
		want = clamp(at - k, n)
	else:
		want = clamp(at + k, n)
	v.eq(now[0] if forward else n + 1 - now[0], want, 'position')

@harness('P15', ['driver.pq3.Cursor.read', 'driver.pq3.Cursor.__next__', 'driver.pq3.Cursor._fetch', 'driver.pq3.Cursor._which_way', 'driver.pq3.Cursor._pq_xp_fetch', 'driver.pq3.Output._process_tuple_chunk_Row'], paths=20000)
def reads(v):
	"the rows of a read are those next to the position, in the direction asked for; what is returned is what the server gave"
	n, p = v.any('rows', Int(0)), v.any('position', Int(0))
	v.assume(p <= n + 1)
	forward = v.any('forward', Choice(True, False))
	how = v.any('how', Choice('read', 'next'))
	got = v.any('got', Choice((), ((b'1',),), ((b'2',), (None,)), ((b'2',), (b'3',), (b'4',))))
	c, db, now, done = cursor(v, n, p, got)
	c.direction = forward
	at = p if forward else n + 1 - p
	if how == 'next':
		o, r = v.outcome(c.__next__)
		k, d = 1, None
		if got == ():
			v.check(o == 'raise' and type(r) is StopIteration, 'no more')
		else:
			v.check(o == 'ok', 'read')
			v.eq(r, [got[0][0]], 'row')
	else:
		d = v.any('way', Choice(None, True, False, 'FORWARD', 'BACKWARD', 'backward', 'x', 1))
		k = v.any('quantity', Opt(Int(0)))
		o, r = v.outcome(c.read, k, d)
		if k is not None and k == 0:
			v.check(o == 'raise' or r == [], 'nothing')
			v.check(db.pq.pushed == 0, 'nothing is asked for')
			return
		if d in ('x', 1) and d is not True:
			v.check(o == 'raise' and type(r) in (ValueError, TypeError), 'refused')
			v.check(db.pq.pushed == 0, 'nothing is asked for')
			return
		v.check(o == 'ok', 'read')
		v.eq(r, [list(x) for x in got], 'rows')
	v.check(len(done) == 1 and done[0][0] == 'FETCH', 'one fetch')
	back = d is False or d in ('BACKWARD', 'backward')
	u, a, b, s = now[0], done[0][1], done[0][2], done[0][3]
	if not forward:
		u, a, b, s = n + 1 - u, n + 1 - a, n + 1 - b, -s
	v.check(s == (-1 if back else 1), 'direction')
	if back:
		v.eq(a, at - 1, 'first row')
		v.eq(u, 0 if k is None else maximum(at - k, 0), 'position')
		v.eq(b, 1 if k is None else maximum(at - k, 1), 'last row')
	else:
		v.eq(a, at + 1, 'first row')
		v.eq(u, n + 1 if k is None else minimum(at + k, n + 1), 'position')
		v.eq(b, n if k is None else minimum(at + k, n), 'last row')

# ---- Portal of the DB-API: reads of any sizes from chunks of any sizes
class Chunks(object):
	"the rows not given yet, in chunks of any size"
	def __init__(self, v):
		self.v, self.given, self.over, self.count = v, [], False, 0
	def __iter__(self):
		return self
	def __next__(self):
		if not self.v.symbolic:
			self.count += 1
		if self.over or self.count > 20 or self.v.any('more', Search(Choice(True, False), lambda r, s: r.random() < .8)) is False:
			self.over = True
			raise StopIteration
		c = self.v.any('chunk', ROWS)
		self.given = self.given + c
		return c
ROWS = Seq(Int(), 'list', cap=4)

def portal(v):
	p = dbapi20.Portal(Chunks(v))
	buf, pos = v.any('buffer', ROWS), v.any('pos', Int(0, 6))
	if v.symbolic:
		pos = v.any('at', Int(0))
	v.assume(pos <= size(buf))
	p.buf, p.pos = buf[:], pos
	left = buf[pos:]
	v.ghost(portal=p, chunks=p.chunks, start=buf, pos=pos)
	return p, left
def left_in(p):
	return p.buf[p.pos:]

@harness('P15', ['driver.dbapi20.Portal.read'])
def portal_read(v):
	"the next rows, as many as asked for; fewer only at the end; what is left is what was not returned"
	p, left = portal(v)
	k = v.any('amount', Int(0, 6)) if not v.symbolic else v.any('quantity', Int(0))
	o, r = v.outcome(p.read, k)
	v.check(o == 'ok', 'read')
	v.eq(r + left_in(p), left + p.chunks.given, 'each row once, in order')
	v.check(size(r) == k or (size(r) < k and p.chunks.over and size(left_in(p)) == 0), 'as many as asked for, or the rest')

@harness('P15', ['driver.dbapi20.Portal.readall'])
def portal_readall(v):
	p, left = portal(v)
	o, r = v.outcome(p.readall)
	v.check(o == 'ok', 'read')
	v.eq(r, left + p.chunks.given, 'each row once, in order')
	v.check(p.chunks.over, 'to the end')
	v.eq(size(left_in(p)), 0, 'nothing left')
	if not v.symbolic:
		o, r = v.outcome(p.read, 1)
		v.check(o == 'ok' and len(r) == 0, 'nothing more')

@harness('P15', ['driver.dbapi20.Portal.__next__'], mode='sampled', bound='buffers and chunks of at most 4 rows', runs=3000)
def portal_next(v):
	p, left = portal(v)
	o, r = v.outcome(p.__next__)
	whole = left + p.chunks.given
	if whole:
		v.check(o == 'ok', 'a row')
		v.eq([r] + left_in(p), whole, 'each row once, in order')
	else:
		v.check(o == 'raise' and type(r) is StopIteration and p.chunks.over, 'no more')
		v.eq(list(left_in(p)), [], 'nothing left')

# ---- results of statements against a server, whole
def tuple_data(row):
	return be(2, len(row)) + b''.join([be(4, len(x)) + x for x in row])
class Backend(object):
	"executes what the driver sends; the replies come in batches of any size"
	def __init__(self, rng, n, fail_at=None):
		self.rng, self.rows, self.fail_at = rng, [b'%d' % i for i in range(n)], fail_at
		self.cursors, self.parsed, self.portals, self.queue, self.executed, self.held, self.scrolling = {}, {}, {}, [], 0, set(), set()
		self.copy = False
		self.block = True     # in a transaction block
	def tell(self, x):
		"replies to the messages of a transaction"
		out, failed = [], False
		for m in x.messages:
			if m is e3.SynchronizeMessage or type(m) is e3.Synchronize:
				out.append((T('Z'), b'T' if self.block else b'I'))
				failed = False
				if not self.block:
					# the end of a transaction: what was not declared to last is gone
					self.portals.clear()
					self.cursors = dict([(k, p) for k, p in self.cursors.items() if k in self.held])
			elif failed:
				pass
			elif type(m) is e3.Query:
				out += [(T('C'), b'SELECT\0'), (T('Z'), b'T' if self.block else b'I')]
			elif type(m) is e3.Parse:
				self.parsed[m.name] = words(m.statement)
				out.append((T('1'), b''))
			elif type(m) is e3.Bind:
				q = self.parsed.get(m.statement)
				self.portals[m.name] = [q, 0]
				out.append((T('2'), b''))
			elif type(m) in (e3.ClosePortal, e3.CloseStatement):
				out.append((T('3'), b''))
			elif type(m) is e3.Execute:
				if m.name in self.portals:
					failed = self.execute(self.portals[m.name], m.max, out)
				else:
					out.append((T('E'), b'SERROR\0C34000\0Mno such portal\0\0'))
					failed = True
			else:
				raise AssertionError(m)
		return out
	def execute(self, portal, limit, out):
		q, at = portal
		if q and q[0] == 'DECLARE':
			self.cursors[q[1]] = 0
			head = q[:q.index('FOR')]
			if 'WITH' in head:
				self.held.add(q[1])
			if 'SCROLL' in head and 'NO' not in head:
				self.scrolling.add(q[1])
			out.append((T('C'), b'DECLARE CURSOR\0'))
			return False
		if q and q[0] in ('MOVE', 'FETCH'):
			was = self.cursors.get(q[-1])
			if was is None:
				out.append((T('E'), b'SERROR\0C34000\0Mno such cursor\0\0'))
				return True
			if q[-1] not in self.scrolling and effect(q, was, len(self.rows))[3] <= was and effect(q, was, len(self.rows))[3] <= len(self.rows) and was > 0:
				out.append((T('E'), b'SERROR\0C55000\0Mcursor can only scan forward\0\0'))
				return True
		if q and q[0] == 'MOVE':
			self.cursors[q[-1]] = effect(q, self.cursors[q[-1]], len(self.rows))[3]
			out.append((T('C'), b'MOVE 1\0'))
			return False
		if q and q[0] == 'FETCH':
			a, b, s, p = effect(q, self.cursors[q[-1]], len(self.rows))
			rows = [self.rows[i - 1] for i in range(a, b + s, s)]
			self.cursors[q[-1]] = p
			end = (T('C'), b'FETCH %d\0' % len(rows))
		elif self.copy:
			out += [(T('H'), b'\0\0\0')] + [(T('d'), r + b'\n') for r in self.rows] + [(T('c'), b''), (T('C'), b'COPY %d\0' % len(self.rows))]
			return False
		else:
			rows = self.rows[at:] if limit in (0, 0xFFFFFFFF) else self.rows[at:at + limit]
			portal[1] = at + len(rows)
			end = (T('s'), b'') if limit not in (0, 0xFFFFFFFF) and len(rows) == limit else (T('C'), b'SELECT %d\0' % len(rows))
		for r in rows:
			if self.fail_at is not None and self.executed == self.fail_at:
				out.append((T('E'), b'SERROR\0C22012\0Mdivision by zero\0\0'))
				return True
			self.executed += 1
			out.append((T('D'), tuple_data((r,))))
		out.append(end)
		return False
class PQ2(object):
	"the client's end: transactions of the real kind, fed with the replies"
	socket = None
	def __init__(self, backend):
		self.backend, self.xact, self.state, self.queue = backend, None, b'I', []
	def push(self, x):
		if self.xact is not None:
			self.complete()
		self.xact = x
		self.step()
	def step(self):
		x = self.xact
		if x is None:
			return
		if x.state is not xact3.Complete:
			if x.state[0] is xact3.Sending:
				self.queue = self.backend.tell(x)
				x.state[1]()
			else:
				assert self.queue, 'the server has nothing to say'
				k = self.backend.rng.choice((1, 1, 2, 3, 7, 50))
				taken = x.state[1](tuple(self.queue[:k]))
				del self.queue[:taken]
		if x.state is xact3.Complete and x.fatal is not True:
			self.xact = None
	def complete(self):
		while self.xact is not None:
			self.step()
	def register_cursor(self, c, i):
		pass
	def trash_cursor(self, i):
		pass

def statement(db, copy=False):
	s = pq3.Statement(db, 's1', 'SELECT rows')
	s.closed = False
	s._pq_statement_id = b's1'
	s._input, s._input_io, s._input_formats = (), (), ()
	s._output = None if copy else e3.TupleDescriptor(((b'i', 0, 0, 23, 4, -1, 1),))
	s._output_io, s._output_formats, s._output_attmap = (int,) if not copy else None, (), {'i': 0}
	s._row_constructor = tuple
	s.string = 'SELECT rows'
	return s

@harness('P15', ['driver.pq3.FetchAll._init', 'driver.pq3.FetchAll.__next__', 'driver.pq3.MultiXactStream.__next__', 'driver.pq3.MultiXactInsideBlock', 'driver.pq3.MultiXactOutsideBlock', 'driver.pq3.Statement.__call__', 'driver.pq3.Statement.rows', 'driver.pq3.Statement.chunks', 'driver.pq3.Statement.column', 'driver.pq3.Statement.first', 'driver.dbapi20.Portal'],
	mode='sampled', runs=3000, bound='results of at most 40 rows in chunks of 1 to 10, replies in random batches, an error of the server at a random row, other statements in between')
def results(v):
	"every way to the rows of a statement gives each row once, in order; a result that failed is never taken as complete"
	how = v.any('how', Search('rows', lambda r, s: r.choice(('rows', 'chunks', 'column', 'call', 'portal', 'copy', 'first'))))
	import random
	seed = v.any('seed', Search(0, lambda r, s: r.getrandbits(30)))
	rng = random.Random(seed)
	size_ = rng.choice((1, 2, 3, 5, 10))
	n = rng.choice((0, 1, 2, size_ - 1, size_, size_ + 1, 2 * size_, rng.randrange(41)))
	b = Backend(rng, n, rng.choice((None, None, rng.randrange(n + 1))))
	db = DB(None)
	db.pq = PQ2(b)
	db.pq.state = rng.choice((b'I', b'T'))
	b.block = db.pq.state == b'T'
	b.copy = how == 'copy'
	if b.copy:
		b.fail_at = None
	s = statement(db, b.copy)
	if rng.random() < .2:
		s.string = None
	fails = b.fail_at is not None and b.fail_at < n
	old = pq3.MultiXactStream.chunksize
	pq3.MultiXactStream.chunksize = size_
	got = []
	errors = 0
	try:
		whole = [(i,) for i in range(n)]
		if how in ('call', 'first'):
			try:
				r = s() if how == 'call' else s.first()
			except pg_exc.Error:
				errors += 1
			v.check(bool(errors) == fails or (how == 'first' and n == 0), 'an error of the server is told')
			if not errors:
				v.eq(r, whole if how == 'call' else (None if n == 0 else 0), 'rows')
			return
		it = None
		idle = 0
		while idle < 3:
			try:
				if it is None:
					it = s.rows() if how in ('rows', 'copy') else s.column() if how == 'column' else s.chunks()
					if how == 'portal':
						it = dbapi20.Portal(it)
				if rng.random() < .2:
					# something else in between
					db._pq_push(xact3.Instruction((e3.Query(b'select'),), asynchook=db._receive_async), db)
					db._pq_complete()
				if how == 'portal' and rng.random() < .5:
					k = rng.choice((1, 2, size_, 7, None))
					x = it.readall() if k is None else it.read(k)
					got += x
					if not x:
						raise StopIteration
				elif how == 'chunks':
					got += [tuple(x) for x in next(it)]
				else:
					x = next(it)
					got.append((x,) if how == 'column' else tuple(x) if how != 'copy' else (int(x),))
			except StopIteration:
				idle += 1
			except pg_exc.Error:
				errors += 1
				idle += 1
		if how == 'portal':
			got = [tuple(x) for x in got]
		if not fails:
			v.check(errors == 0, 'no error')
			v.eq(got, whole, 'each row once, in order')
		else:
			v.check(errors > 0, 'an error of the server is told')
			v.check(got == whole[:len(got)] and len(got) <= b.fail_at, 'rows before the error')
	finally:
		pq3.MultiXactStream.chunksize = old

@harness('P15', ['driver.pq3.Cursor'], mode='sampled', runs=2000, bound='cursors of at most 12 rows, sequences of at most 8 reads, seeks and changes of direction')
def scrolls(v):
	"whole histories of a cursor: the rows of every read"
	import random
	rng = random.Random(v.any('seed', Search(0, lambda r, s: r.getrandbits(30))))
	n = rng.randrange(13)
	b = Backend(rng, n)
	b.block = rng.random() < .5
	db = DB(None)
	db.pq = PQ2(b)
	s = statement(db)
	c = pq3.Cursor(s, (), db, None)
	view, p = [(i,) for i in range(n)], 0
	for i in range(rng.randrange(1, 9)):
		what = rng.choice(('read', 'read', 'seek', 'direction', 'next'))
		if what == 'direction':
			c.direction = not c.direction
			view, p = view[::-1], n + 1 - p
		elif what == 'next':
			x = next(c, None)
			v.eq(x, view[p] if p < n else None, 'row')
			p = min(p + 1, n + 1)
		elif what == 'seek':
			w = rng.choice(('ABSOLUTE', 'RELATIVE', 'FROM_END', 'FORWARD', 'BACKWARD'))
			k = rng.randrange(0, n + 3) if w in ('ABSOLUTE', 'FROM_END') else rng.randrange(-n - 2, n + 3)
			c.seek(k, w)
			p = {'ABSOLUTE': k, 'RELATIVE': p + k, 'FROM_END': n + 1 - k, 'FORWARD': p + k, 'BACKWARD': p - k}[w]
			p = max(0, min(p, n + 1))
		else:
			k, back = rng.choice((None, 0, 1, 2, 3, n)), rng.choice((False, True))
			r = c.read(k, 'BACKWARD' if back else rng.choice((None, 'FORWARD')))
			q = (0 if back else n + 1) if k is None else max(0, p - k) if back else min(n + 1, p + k)
			v.eq(r, [view[j - 1] for j in (range(p - 1, max(q, 1) - 1, -1) if back else range(p + 1, min(q, n) + 1))] if k != 0 else [], 'rows')
			p = q if k != 0 else p
