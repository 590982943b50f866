import random, select as select_module, time as time_module
from pyvc.api import *
from contracts.common import *
from postgresql import notifyman
from postgresql.driver import pq3
from postgresql.protocol import element3 as e3

NM = notifyman.NotificationManager
# ---- the clock and the wires are the harness's
WORLD = [None]
def fake_time():
	return WORLD[0].time()
def fake_select(r, w, x, t=None):
	return WORLD[0].select(r, w, x, t)
for _f in list(vars(NM).values()):
	if getattr(_f, '__defaults__', None):
		_f.__defaults__ = tuple([fake_time if d is time_module.time else fake_select if d is select_module.select else d for d in _f.__defaults__])
notifyman.time, notifyman.select = fake_time, fake_select

class TypIO(object):
	@staticmethod
	def decode(b):
		return b.decode('ascii')
class Fatal(Exception):
	pass
class DB(object):
	"a connection: what is on the wire is received when something is executed"
	def __init__(self, name):
		self.name, self._notifies, self.wire, self.closed, self.dead = name, [], [], False, False
		self.received, self.given, self.count = [], [], 0
		self.typio = TypIO
	def message(self):
		self.count += 1
		return e3.Notify(self.count, b'c' + self.name, b'p%d' % self.count)
	def receive(self):
		self._notifies.extend(self.wire)
		self.received.extend(self.wire)
		self.wire = []
	def execute(self, q):
		if self.closed:
			raise Fatal()
		self.receive()
		if self.dead:
			self.closed = True
			raise Fatal()
def triple(m):
	return (m.channel.decode('ascii'), m.payload.decode('ascii'), m.pid)

class World(object):
	def __init__(self, v, dbs):
		self.v, self.dbs, self.now, self.waits, self.limit = v, dbs, 0, [], 12
	def time(self):
		self.now = self.now + self.pass_()
		return self.now
	def pass_(self):
		return 0
	def select(self, r, w, x, t):
		v = self.v
		r, x = list(r), list(x)
		for db in r:
			v.check(not db.closed, 'a closed connection is not waited for')
		self.waits.append(t)
		ready, bad, over = self.happens(r, t)
		if not ready and not bad:
			self.now = self.now + t
		return ready, [], bad

class Enough(BaseException):
	pass

class Chosen(World):
	"every behaviour within the bound"
	def __init__(self, v, dbs, rounds):
		super().__init__(v, dbs)
		self.rounds = rounds
	def pass_(self):
		p = self.v.any('passes', Int(0, 1<<40))
		return p
	def happens(self, r, t):
		if self.rounds == 0:
			raise Enough()
		self.rounds -= 1
		ready, bad = [], []
		for db in r:
			k = self.v.any('arrives', Choice('nothing', 'one', 'fails', 'one and fails', 'exceptional'))
			if 'one' in k:
				db.wire.append(db.message())
			if 'fails' in k:
				db.dead = True
			if k == 'exceptional':
				bad.append(db)
			elif k != 'nothing':
				ready.append(db)
		return ready, bad, False

def take(v, nm, r):
	if r is None:
		return
	db, ns = r
	v.check(len(ns) > 0, 'an event is of some notifications')
	db.given.extend(ns)

def check_lost(v, nm, dbs, what, had=None):
	for db in dbs:
		ms = [triple(m) for m in db.received]
		v.check(db.given == ms[:len(db.given)], 'in order, once')
		if what == 'all':
			v.check(len(db.given) + (len(db._notifies) if db in nm.connections else 0) == len(ms), 'every notification was given, or is held')
			v.check(len(db.given) >= had[db], 'every notification received before was given')

class Random(World):
	def __init__(self, v, dbs, rng):
		super().__init__(v, dbs)
		self.rng = rng
	def pass_(self):
		return self.rng.choice((0, 0, .125, .5))
	def happens(self, r, t):
		rng = self.rng
		self.limit -= 1
		if self.limit <= 0:
			raise Enough()
		ready, bad = [], []
		for db in r:
			k = rng.random()
			if k < .4:
				db.wire += [db.message() for i in range(rng.choice((1, 1, 2, 5)))]
			if rng.random() < .06:
				db.dead = True
			if rng.random() < .05:
				bad.append(db)
			if db.wire or db.dead:
				if db not in bad or rng.random() < .5:
					ready.append(db)
		rng.shuffle(ready)
		if ready or bad:
			self.now += rng.choice((0, .25, .5, 1)) * t
		return ready, bad, False

def events(v, world, nm, dbs, rng, n, between):
	last_idle = world.now
	had = dict((db, len(db.received)) for db in dbs)
	for i in range(n):
		at, waits = world.now, len(world.waits)
		try:
			r = nm.__next__()
		except StopIteration:
			v.check(nm.gettimeout() == 0 or not nm.connections, 'the iteration ends when nothing is left to wait for')
			check_lost(v, nm, dbs, 'all', had)
			return
		except Enough:
			return
		t = nm.gettimeout()
		for w in world.waits[waits:]:
			v.check(w >= 0 and (t is None or w <= t), 'it waits no longer than the time-out')
		take(v, nm, r)
		check_lost(v, nm, dbs, 'order')
		if r is None:
			v.check(t is not None and t > 0, 'no idle event without a time-out')
			v.check(world.now - last_idle >= t, 'no idle event before the time-out')
			last_idle = world.now
			for db in dbs:
				v.check(len(db.given) + len(db._notifies) == len(db.received), 'nothing is held during an idle event')
		for db in dbs:
			v.check((db in nm.connections) != (db in nm.garbage), 'watched, or set aside')
		between()

@harness('P26', ['notifyman.NotificationManager.__next__', 'notifyman.NotificationManager._wait_on_wires', 'notifyman.NotificationManager._pull_from_connections', 'notifyman.NotificationManager._queue_next', 'notifyman.NotificationManager._timedout', 'notifyman.NotificationManager.trash'],
	mode='bounded', paths=100000, seconds=150, bound='one connection and at most 2 waits, or two and 1 wait, at each of which each connection has nothing, one notification, a failure, both, or an exceptional condition; each had 0 or 1 notifications before; 4 events; any time-out, and any time passing')
def schedules(v):
	"all behaviours of two connections for some waits: each notification once, in order, none lost by a failure"
	n = v.any('connections', Choice(1, 2))
	dbs = [DB(b'0'), DB(b'1')][:n]
	for db in dbs:
		if v.any('before', Choice(False, True)):
			db.wire.append(db.message())
			db.receive()
	t = v.any('timeout', Opt(Int(0, 1<<40)))
	w = WORLD[0] = Chosen(v, dbs, 3 - n)
	nm = NM(*dbs, timeout=t)
	def between():
		pass
	events(v, w, nm, dbs, None, 4, between)

@harness('P26', ['notifyman.NotificationManager', 'driver.pq3.Connection.iternotifies'], mode='sampled', runs=6000, bound='up to 4 connections, up to 30 events, random arrivals, failures, closes, additions and changes of the time-out')
def histories(v):
	"random histories: each notification once, in order, none lost by a failure"
	rng = random.Random(v.any('seed', Search(0, lambda r, s: r.getrandbits(30))))
	dbs = [DB(b'%d' % i) for i in range(rng.randrange(1, 5))]
	w = WORLD[0] = Random(v, dbs, rng)
	w.limit = rng.choice((1, 3, 12, 30))
	nm = NM(*dbs, timeout=rng.choice((None, 0, .5, 2, 30)))
	def between():
		db = rng.choice(dbs)
		p = rng.random()
		if db not in nm.connections:
			pass
		elif p < .1 and not db.closed:
			db.wire.append(db.message())
			db.receive()
		elif p < .15:
			if not db.closed:
				db.receive()
			db.closed = True
		elif p < .2:
			nm.settimeout(rng.choice((None, 0, .5, 2)))
		w.now += rng.choice((0, 0, .25, 3))
	events(v, w, nm, dbs, rng, 30, between)

@harness('P26', ['driver.pq3.Connection.iternotifies', 'driver.pq3.Connection._receive_async'], mode='sampled', runs=500, bound='up to 6 notifications')
def of_one_connection(v):
	"the notifications of one connection, one by one"
	rng = random.Random(v.any('seed', Search(0, lambda r, s: r.getrandbits(30))))
	db = pq3.Connection(pq3.IP4(host='h', port=5432, user='u', driver=pq3.Driver()))
	ms = [e3.Notify(i, b'chan', b'%d' % i) for i in range(rng.randrange(7))]
	class Wire(pq3.Connection):
		closed = False
		def execute(self, q):
			for m in ms[len(self.seen):]:
				self.seen.append(m)
				self._receive_async(m)
	db.__class__ = Wire
	db.seen = []
	if rng.random() < .5:
		db.execute('')
	class W(World):
		def happens(self, r, t):
			return list(r), [], False
	WORLD[0] = W(v, [db])
	def some(it, n):
		return [next(it) for i in range(n)]
	if db.seen:
		v.eq(list(db.iternotifies(0)), [triple(m) for m in ms], 'notifications')
		v.eq(list(db.iternotifies(0)), [], 'once')
	else:
		v.eq(some(db.iternotifies(), len(ms)), [triple(m) for m in ms], 'notifications')
@harness('P26', ['notifyman.NotificationManager.settimeout', 'notifyman.NotificationManager.gettimeout'])
def timeouts(v):
	nm = NM()
	t = v.any('seconds', Opt(Int()))
	o, r = v.outcome(nm.settimeout, t)
	if t is not None and t < 0:
		v.check(o == 'raise' and type(r) is ValueError and nm.gettimeout() is None, 'refused')
	else:
		v.check(o == 'ok', 'taken')
		v.eq(nm.gettimeout(), t, 'time-out')
