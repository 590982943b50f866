from pyvc.api import *
from contracts.common import *
from postgresql.driver import pq3
from postgresql import exceptions as pg_exc
from postgresql.protocol import element3 as e3

DRIVER = pq3.Driver()
class PQ(object):
	socket = None
	xact = None
	def __init__(self, state):
		self.state = state
class DB(pq3.Connection):
	"a connection whose statements are recorded; what becomes of them is the given server's"
	closed = False
	def __init__(self, v, server):
		super().__init__(pq3.IP4(host='h', port=5432, user='u', driver=DRIVER))
		self.v, self.server, self.sql = v, server, []
		self.pq = PQ(b'I')
	def execute(self, q):
		self.sql.append(q)
		self.server(q)

class Refused(pg_exc.Error):
	"an error of the server"
class Down(pg_exc.ConnectionFailureError):
	"the connection is gone"

def transaction(v, started, isolation=None, mode=None):
	"""
	a transaction, and its database: a first one in no block or one in a block
	"""
	fate = {}
	def server(q):
		k = fate.get('next', 'ok')
		if k == 'ok':
			return
		if k == 'active':
			raise pg_exc.ActiveTransactionError('x', code='25001')
		raise Refused('x')
	db = DB(v, server)
	t = db.xact(isolation=isolation, mode=mode)
	kind = None
	if started:
		kind = v.any('kind', Choice('block', 'savepoint'))
		db.pq.state = b'I' if kind == 'block' else b'T'
		t.start()
		v.check(len(db.sql) == 1, 'one statement')
	return db, t, fate, kind
def name(q):
	return q.split('"')[1]
def ends(q):
	"statements of a text, white space and case apart"
	return [' '.join(x.split()) for x in q.split(';') if x.strip()]

@harness('P14', ['driver.pq3.Transaction.start', 'driver.pq3.Transaction.__enter__', 'driver.pq3.Transaction._start_xact_string', 'driver.pq3.Transaction._savepoint_xact_string'], paths=20000)
def begins(v):
	"starting: in no block START TRANSACTION with the options given, in a block a savepoint; refused options and failed statements leave it unstarted"
	iso, mode = v.any('isolation', Opt(Text())), v.any('mode', Opt(Text()))
	db, t, fate, _ = transaction(v, False, iso, mode)
	db.pq.state = v.any('state', Choice(b'I', b'T', b'E'))
	fate['next'] = v.any('server', Choice('ok', 'fails'))
	how = v.any('how', Choice('start', 'with', 'begin'))
	f = t.start if how == 'start' else t.begin if how == 'begin' else t.__enter__
	o, r = v.outcome(f)
	if db.pq.state == b'I':
		if (iso is not None and ';' in iso) or (mode is not None and ';' in mode):
			v.check(o == 'raise' and isinstance(r, ValueError), 'refused')
			v.check(db.sql == [], 'nothing sent')
			v.check(t.state == 'initialized', 'not started')
			return
		v.check(len(db.sql) == 1, 'one statement')
		v.eq(db.sql[0], 'START TRANSACTION' + ('' if iso is None else ' ISOLATION LEVEL ' + iso) + ('' if mode is None else ' ' + mode) + ';', 'statement')
		kind = 'block'
	elif iso is not None or mode is not None:
		v.check(o == 'raise' and isinstance(r, pg_exc.Error), 'a block was started already')
		v.check(db.sql == [], 'nothing sent')
		v.check(t.state == 'initialized', 'not started')
		return
	else:
		v.check(len(db.sql) == 1, 'one statement')
		q = ends(db.sql[0])
		v.check(len(q) == 1 and q[0].startswith('SAVEPOINT "') and q[0].endswith('"') and q[0].count('"') == 2, 'savepoint')
		kind = 'savepoint'
	if fate['next'] == 'ok':
		v.check(o == 'ok' and (how != 'with' or r is t), 'started')
		v.check(t.state == 'open' and t.type == kind, 'open')
		o, r = v.outcome(t.start)
		v.check(o == 'ok' and len(db.sql) == 1, 'started once')
	else:
		v.check(o == 'raise' and type(r) is Refused, 'the error')
		v.check(t.state == 'initialized', 'not started')

def expect(v, db, t, kind, start, what, q):
	"the statement that ends what was started"
	n = name(start) if kind == 'savepoint' else None
	es = ends(q)
	if what == 'commit':
		if kind == 'block':
			v.check(es == ['COMMIT'], 'commit')
		else:
			v.check(es == ['RELEASE "%s"' % n], 'release of the savepoint')
	elif kind == 'block':
		v.check(es in (['ABORT'], ['ROLLBACK']), 'rollback')
	else:
		v.check(es == ['ROLLBACK TO "%s"' % n, 'RELEASE "%s"' % n], 'rollback to the savepoint, and its release')

STATES = Choice('initialized', 'open', 'prepared', 'committed', 'aborted')

@harness('P14', ['driver.pq3.Transaction.commit', 'driver.pq3.Transaction.rollback', 'driver.pq3.Transaction._release_string', 'driver.pq3.Transaction._rollback_to_string'])
def finishes(v):
	"commit and rollback: the statement of the kind of block, once, and only in the right state"
	db, t, fate, kind = transaction(v, True)
	start = db.sql.pop()
	state = t.state = v.any('tstate', STATES)
	what = v.any('what', Choice('commit', 'rollback', 'abort'))
	fate['next'] = v.any('server', Choice('ok', 'fails'))
	o, r = v.outcome(getattr(t, what))
	done = 'committed' if what == 'commit' else 'aborted'
	if state == done:
		v.check(o == 'ok' and db.sql == [], 'done already')
		v.check(t.state == done, 'state')
		return
	if state not in (('open',) if what == 'commit' else ('open', 'prepared')):
		v.check(o == 'raise' and isinstance(r, pg_exc.Error), 'refused')
		v.check(db.sql == [], 'nothing sent')
		v.check(t.state == state, 'state')
		return
	v.check(len(db.sql) == 1, 'one statement')
	expect(v, db, t, kind, start, 'commit' if what == 'commit' else 'rollback', db.sql[0])
	if fate['next'] == 'ok':
		v.check(o == 'ok' and t.state == done, 'state')
		o, r = v.outcome(getattr(t, what))
		v.check(o == 'ok' and len(db.sql) == 1, 'once')
	else:
		v.check(o == 'raise' and type(r) is Refused, 'the error')
		v.check(t.state == state, 'state')
	o, r = v.outcome(t.start)
	v.check(t.state == 'open' or o == 'raise', 'not restarted')
	v.check(len(db.sql) == 1, 'not restarted')

@harness('P14', ['driver.pq3.Transaction.__exit__', 'driver.pq3.Transaction.commit', 'driver.pq3.Transaction.rollback'])
def leaves(v):
	"leaving a block: the one statement that ends it, by how it is left; the exception goes on"
	db, t, fate, kind = transaction(v, True)
	start = db.sql.pop()
	db.pq.state = v.any('state', Choice(b'T', b'E'))
	db.closed = v.any('closed', Choice(False, True))
	state = t.state = v.any('tstate', Choice('open', 'committed', 'aborted'))
	exc = v.any('exception', Choice(None, KeyError, pg_exc.Error))
	fate['next'] = v.any('server', Choice('ok', 'fails', 'active'))
	n = []
	server = db.server
	def at_most_two(q):
		n.append(q)
		if len(n) > 1:
			return
		server(q)
	db.server = at_most_two
	e = None if exc is None else exc('e')
	o, r = v.outcome(t.__exit__, exc, e, None)
	v.check(o == 'raise' or not r, 'no exception is swallowed')
	failed = fate['next'] != 'ok'
	if exc is None and db.pq.state != b'E':
		if state == 'committed':
			v.check(o == 'ok' and db.sql == [], 'committed already')
			return
		if state == 'aborted':
			v.check(o == 'raise' and db.sql == [], 'aborted already: not committed')
			return
		v.check(len(db.sql) >= 1, 'a statement')
		expect(v, db, t, kind, start, 'commit', db.sql[0])
		if not failed:
			v.check(o == 'ok' and len(db.sql) == 1 and t.state == 'committed', 'committed')
			return
		v.check(o == 'raise', 'the failure is told')
		v.check(t.state != 'committed', 'not committed')
		if fate['next'] == 'active' and not db.closed:
			# the block could not be committed and is still there
			v.check(len(db.sql) == 2 and t.state == 'aborted', 'rolled back')
			expect(v, db, t, kind, start, 'rollback', db.sql[1])
		else:
			v.check(len(db.sql) == 1, 'once')
		return
	if exc is None:
		v.check(o == 'raise', 'a failed block is not left as if it were committed')
	if db.closed or state == 'aborted':
		v.check(db.sql == [], 'nothing to end')
		if exc is not None:
			v.check(o == 'ok', 'the exception goes on')
		return
	if state == 'committed':
		v.check(db.sql == [], 'ended already')
		return
	v.check(len(db.sql) == 1, 'one statement')
	expect(v, db, t, kind, start, 'rollback', db.sql[0])
	if not failed:
		v.check(t.state == 'aborted', 'aborted')
		if exc is not None:
			v.check(o == 'ok', 'the exception goes on')
	else:
		v.check(o == 'raise' and t.state == 'open', 'the failure is told')

@harness('P14', ['driver.pq3.Transaction._savepoint_xact_string', 'driver.pq3.Transaction.start'])
def names(v):
	"two open blocks never have the same savepoint"
	db = DB(v, lambda q: None)
	a, b = db.xact(), db.xact()
	db.pq.state = b'T'
	a.start()
	b.start()
	v.check(name(db.sql[0]) != name(db.sql[1]), 'names')

# ---- whole programs against a server
class Server(object):
	"savepoints and blocks; a write is kept when the block it was made in is committed"
	def __init__(self, db):
		self.db, self.kept, self.stack = db, [], None
	def fail(self):
		if self.stack is not None:
			self.db.pq.state = b'E'
		raise Refused('x')
	def __call__(self, text):
		for q in ends(text):
			self.one(q)
	def one(self, q):
		w = q.split(' ')[0]
		failed = self.db.pq.state == b'E'
		if w == 'START':
			if self.stack is None:
				self.stack, self.db.pq.state = [(None, [])], b'T'
			return
		if w == 'COMMIT':
			if self.stack is not None and not failed:
				for n, ws in self.stack:
					self.kept.extend(ws)
			self.stack, self.db.pq.state = None, b'I'
			return
		if w in ('ABORT', 'ROLLBACK') and q == w:
			self.stack, self.db.pq.state = None, b'I'
			return
		if self.stack is None and w in ('SAVEPOINT', 'RELEASE', 'ROLLBACK'):
			self.fail()
		if w == 'ROLLBACK':
			at = self.find(name(q))
			self.stack[at:] = [(name(q), [])]
			self.db.pq.state = b'T'
			return
		if failed:
			self.fail()
		if w == 'SAVEPOINT':
			self.stack.append((name(q), []))
		elif w == 'RELEASE':
			at = self.find(name(q))
			for n, ws in self.stack[at:]:
				self.stack[at - 1][1].extend(ws)
			del self.stack[at:]
		elif w == 'WRITE':
			if self.stack is None:
				self.kept.append(q)
			else:
				self.stack[-1][1].append(q)
		else:
			self.fail()
	def find(self, n):
		for at in range(len(self.stack) - 1, 0, -1):
			if self.stack[at][0] == n:
				return at
		self.fail()

class Raised(Exception):
	pass
def rnd_program(rng, depth):
	r = []
	for i in range(rng.randrange(4)):
		k = rng.choice(('write', 'write', 'block', 'block', 'bad', 'raise'))
		if k == 'block':
			if depth:
				r.append(('block', rnd_program(rng, depth - 1), rng.choice((True, False))))
		else:
			r.append((k,))
	return tuple(r)

@harness('P14', ['driver.pq3.Transaction', 'driver.pq3.Connection.xact'], mode='sampled', bound='random programs of blocks nested to depth 4, with writes, failing statements and exceptions, each caught outside its block or not', runs=4000)
def programs(v):
	"what is kept is what was written in blocks left normally, all the way out"
	prog = v.any('program', Search(Const(()), lambda r, s: rnd_program(r, 4)))
	db = DB(v, None)
	server = db.server = Server(db)
	count = [0]
	def run(ops, sink):
		for op in ops:
			if op[0] == 'write':
				count[0] += 1
				q = 'WRITE %d' % count[0]
				db.execute(q)
				sink.append(q)
			elif op[0] == 'bad':
				db.execute('BAD')
			elif op[0] == 'raise':
				raise Raised()
			else:
				mine = []
				before = server.stack and [n for n, ws in server.stack]
				try:
					with db.xact():
						run(op[1], mine)
					sink.extend(mine)
				except pg_exc.Error:
					if not op[2]:
						raise
				except Raised:
					if not op[2]:
						raise
				finally:
					v.check((server.stack and [n for n, ws in server.stack]) == before, 'the blocks around it are as they were')
	kept = []
	try:
		run(prog, kept)
	except (Raised, pg_exc.Error):
		pass
	v.check(db.pq.state == b'I' and server.stack is None, 'no block is left')
	v.eq(server.kept, kept, 'what is kept')
