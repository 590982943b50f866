import random
from pyvc.api import *
from contracts.common import *
from postgresql import alock
from postgresql import types as pg_types

ANY = ['alock.ALock.acquire', 'alock.ALock.release', 'alock.ALock.__enter__', 'alock.ALock.__exit__', 'alock.ALock.locked',
	'alock.ALock._split_lock_identifiers', 'alock.ExclusiveLock.__select_statements__', 'alock.ShareLock.__select_statements__']

class Fails(Exception):
	"what the server says"

def key(pair, i):
	"the key the statements of libsys.sql take from the i-th pair and number"
	if i is None:
		a, b = pair
		return (a, b)
	return i

class Sys(object):
	"""
	the six statements, over a session's table of (mode, key) -> count; `fate` says
	what becomes of the next attempts: True when another session holds the key
	"""
	def __init__(self, v):
		self.v, self.held, self.log, self.fate, self.breaks = v, [], [], (lambda mode, k: False), (lambda mode, k: False)
	def keys(self, pairs, ids):
		pairs, ids = [list(x) for x in pairs], list(ids)
		self.v.check(len(pairs) == len(ids), 'as many pairs as numbers')
		for p in pairs:
			self.v.check(len(p) == 2, 'a pair is of two numbers')
		return [key(p, i) for p, i in zip(pairs, ids)]
	def take(self, mode, k):
		self.held.append((mode, k))
		self.log.append(('take', mode, k))
	def acquire(self, mode, pairs, ids):
		for k in self.keys(pairs, ids):
			if self.breaks(mode, k):
				raise Fails()
			self.take(mode, k)
		return 1
	def try_(self, mode, pairs, ids):
		r = []
		for k in self.keys(pairs, ids):
			if self.breaks(mode, k):
				raise Fails()
			if self.fate(mode, k):
				r.append((False,))
			else:
				self.take(mode, k)
				r.append((True,))
		return r
	def release(self, mode, pairs, ids):
		for k in self.keys(pairs, ids):
			found = None
			for j in range(len(self.held)):
				if self.held[j] == (mode, k):
					found = j
			self.v.check(found is not None, 'what is released is held')
			if found is not None:
				del self.held[found]
			self.log.append(('release', mode, k))
		return [(True,)]
	def acquire_advisory_exclusive(self, p, i): return self.acquire('x', p, i)
	def acquire_advisory_shared(self, p, i): return self.acquire('s', p, i)
	def try_advisory_exclusive(self, p, i): return self.try_('x', p, i)
	def try_advisory_shared(self, p, i): return self.try_('s', p, i)
	def release_advisory_exclusive(self, p, i): return self.release('x', p, i)
	def release_advisory_shared(self, p, i): return self.release('s', p, i)

class DB(object):
	closed = False
	def __init__(self, v):
		self.sys = Sys(v)
def mode_of(cls):
	return 'x' if cls is alock.ExclusiveLock else 's'
def expected(lock, n, keys):
	return [(mode_of(type(lock)), k) for k in keys] if n > 0 else []

KEY = Int(-1 << 63, (1 << 63) - 1)
HALF = Int(-1 << 31, (1 << 31) - 1)
def some_keys(v, most=3):
	n = v.any('keys', Choice(*range(most + 1)))
	r = []
	for i in range(n):
		if v.any('is a pair', Bool()):
			r.append((v.any('a', HALF), v.any('b', HALF)))
		else:
			r.append(v.any('number', KEY))
	return r
def some_class(v):
	return v.any('class', Choice(alock.ExclusiveLock, alock.ShareLock))

def held_eq(v, db, want, what):
	v.eq(db.sys.held, want, what)

@harness('P25', ANY, mode='bounded', paths=60000, bound='at most 3 keys; any count up to 3')
def acquired(v):
	"acquiring: the first takes every key in order, further ones nothing; refused ones hold nothing"
	db = DB(v)
	keys = some_keys(v)
	lock = some_class(v)(db, *keys)
	n = v.any('times before', Choice(0, 1, 2))
	m = mode_of(type(lock))
	for i in range(n):
		v.check(lock.acquire() is True, 'acquired')
		v.eq(db.sys.log, [('take', m, k) for k in keys], 'each key once, in order')
	wait = v.any('wait', Choice(True, False))
	others = [v.any('is held by another', Bool()) for k in keys] if not wait and not n else []
	todo = list(others)
	db.sys.fate = lambda mode, k: todo.pop(0)
	if wait or n:
		got = lock.acquire() if v.any('default', Choice(True, False)) and wait else lock.acquire(blocking=wait)
		ok = True
	else:
		got = lock.acquire(blocking=False)
		ok = True
		for o in others:
			if o:
				ok = False
	v.check(got is True if ok else got is False, 'says whether acquired')
	held_eq(v, db, [(m, k) for k in keys] if ok else [], 'keys held')
	v.check(lock.locked() is (ok), 'locked')
	if not ok:
		o, r = v.outcome(lock.release)
		v.check(o == 'raise' and type(r) is RuntimeError, 'nothing to release')

@harness('P25', ANY, mode='bounded', paths=60000, bound='at most 3 keys; any count up to 3')
def released(v):
	"releasing: only the last one releases, every key"
	db = DB(v)
	keys = some_keys(v)
	lock = some_class(v)(db, *keys)
	n = v.any('times acquired', Choice(0, 1, 2, 3))
	for i in range(n):
		lock.acquire()
	gone = v.any('the connection is closed', Choice(False, True))
	db.closed = gone
	for i in range(n):
		held_eq(v, db, expected(lock, n, keys), 'held until the last')
		v.check(lock.locked() is (not gone), 'locked')
		lock.release()
	if not gone:
		held_eq(v, db, [], 'all released')
	else:
		v.check(len(db.sys.log) == (len(keys) if n else 0), 'nothing is sent to a closed connection')
	v.check(lock.locked() is False, 'unlocked')
	o, r = v.outcome(lock.release)
	v.check(o == 'raise' and type(r) is RuntimeError, 'refused')
	v.check(len(db.sys.log) == (0 if not n else len(keys) if gone else 2 * len(keys)), 'nothing was done')

@harness('P25', ANY, mode='proof', internal=True, paths=4000)
def any_count(v):
	"the representation: a lock acquired any number of times; one more acquisition, or one release"
	db = DB(v)
	keys = [v.any('number', KEY), (v.any('a', HALF), v.any('b', HALF))]
	lock = some_class(v)(db, *keys)
	n = v.any('count', Int(0, 1 << 62))
	lock._count = n
	if n > 0:
		for k in keys:
			db.sys.held.append((mode_of(type(lock)), k))
	closed = db.closed = v.any('closed', Choice(False, True))
	if v.any('acquire', Choice(True, False)):
		v.assume(n > 0 or not closed)
		lock.acquire(v.any('wait', Choice(True, False)))
		v.eq(lock._count, n + 1, 'count')
		held_eq(v, db, expected(lock, n + 1, keys), 'held')
		v.check(len(db.sys.log) == (0 if n > 0 else len(keys)), 'taken once')
	else:
		o, r = v.outcome(lock.release)
		if n == 0:
			v.check(o == 'raise' and type(r) is RuntimeError, 'refused')
			v.eq(lock._count, 0, 'count')
		else:
			v.check(o == 'ok', 'released')
			v.eq(lock._count, n - 1, 'count')
			held_eq(v, db, expected(lock, n if closed else n - 1, keys), 'held')

@harness('P25', ANY, mode='bounded', paths=20000, bound='nesting of at most 3')
def contexts(v):
	"leaving a context releases what entering acquired, however it is left"
	db = DB(v)
	keys = [v.any('number', KEY), (v.any('a', HALF), v.any('b', HALF))]
	lock = some_class(v)(db, *keys)
	depth = v.any('depth', Choice(1, 2, 3))
	class Left(Exception):
		pass
	def nest(d):
		with lock as l:
			v.check(l is lock, 'it is the lock')
			held_eq(v, db, expected(lock, 1, keys), 'held inside')
			if d > 1:
				nest(d - 1)
			elif fails:
				raise Left()
			held_eq(v, db, expected(lock, 1, keys), 'held until left')
	fails = v.any('raises', Choice(False, True))
	o, r = v.outcome(nest, depth)
	v.check((o == 'raise' and type(r) is Left) if fails else o == 'ok', 'what is raised inside is raised')
	held_eq(v, db, [], 'nothing is held outside')
	v.check(not lock.locked(), 'unlocked')

@harness('P25', ANY, mode='bounded', paths=20000, bound='2 keys, a failure at either')
def failures(v):
	"an operation that the server fails changes no count"
	db = DB(v)
	lock = some_class(v)(db, 1, (2, 3))
	bad = v.any('fails at', Choice(1, (2, 3)))
	what = v.any('operation', Choice('acquire', 'try', 'release'))
	if what == 'release':
		lock.acquire()
		def release(p, i):
			raise Fails()
		lock._release = release
		o, r = v.outcome(lock.release)
		v.check(o == 'raise' and type(r) is Fails, 'raised')
		v.check(lock.locked(), 'still held')
		return
	db.sys.breaks = lambda m, k: k == bad
	o, r = v.outcome(lock.acquire, what == 'acquire')
	v.check(o == 'raise' and type(r) is Fails, 'raised')
	v.check(not lock.locked(), 'not acquired')
	o, r = v.outcome(lock.release)
	v.check(o == 'raise' and type(r) is RuntimeError, 'refused')

@harness('P25', ANY, mode='sampled', runs=4000, bound='up to 4 locks of up to 5 keys on one connection, 40 operations')
def histories(v):
	"random histories of several locks of one session: the server holds what the counts say"
	rng = random.Random(v.any('seed', Search(0, lambda r, s: r.getrandbits(30))))
	db = DB(v)
	pool = [0, 1, -5, (0, 0), (0, 1), (1, 0), (-7, 2), 1 << 40]
	locks = []
	for i in range(rng.randrange(1, 5)):
		ks = [rng.choice(pool) for j in range(rng.randrange(6))]
		locks.append([rng.choice((alock.ExclusiveLock, alock.ShareLock))(db, *ks), ks, 0])
	taken = set(rng.choice(pool) for i in range(rng.randrange(3)))
	db.sys.fate = lambda m, k: k in taken
	db.sys.breaks = lambda m, k: False
	for i in range(40):
		x = rng.choice(locks)
		lock, ks, n = x
		p = rng.random()
		if p < .5:
			if rng.random() < .5 or n or not any(k in taken for k in ks):
				if rng.random() < .3:
					lock.__enter__()
				else:
					v.check(lock.acquire(rng.choice((True, False)) or not (n or not any(k in taken for k in ks))) is True, 'acquired')
				x[2] += 1
			else:
				v.check(lock.acquire(blocking=False) is False, 'not acquired')
		else:
			o, r = v.outcome(*rng.choice(((lock.release,), (lock.__exit__, None, None, None))))
			v.check((o == 'ok') == (n > 0), 'refused when not held')
			if n:
				x[2] -= 1
			else:
				v.check(type(r) is RuntimeError, 'refused with RuntimeError')
		want = []
		for l, ks, n in locks:
			want += expected(l, n, ks)
			v.check(l.locked() == (n > 0), 'locked')
			v.check(l.state == ('locked' if n else 'unlocked'), 'state')
		v.check(sorted(db.sys.held, key=repr) == sorted(want, key=repr), 'held')

@harness('P25', ANY + ['types.Array'], mode='sampled', runs=2000, bound='up to 6 keys')
def parameters(v):
	"the parameters are the arrays of pairs and of numbers of the keys, in the same order, as the driver packs them"
	rng = random.Random(v.any('seed', Search(0, lambda r, s: r.getrandbits(30))))
	ks = [rng.choice((0, 1, -5, (0, 0), (0, 1), [4, 5], (-7, 2), 1 << 40)) for j in range(rng.randrange(7))]
	db = DB(v)
	seen = []
	def record(self, mode, pairs, ids):
		a, b = pg_types.Array(pairs), pg_types.Array(ids)
		n = len(ks)
		v.check(a.dimensions == ((n, 2) if n else ()) and b.dimensions == ((n,) if n else ()), 'dimensions')
		e, i = list(a.elements()), list(b.elements())
		seen.append([i[j] if i[j] is not None else (e[2 * j], e[2 * j + 1]) for j in range(n)])
		return [(True,)] * n
	class S(Sys):
		acquire = try_ = release = record
	db.sys = S(v)
	lock = rng.choice((alock.ExclusiveLock, alock.ShareLock))(db, *ks)
	want = [tuple(k) if type(k) is list else k for k in ks]
	lock.acquire(rng.choice((True, False)))
	v.eq(seen, [want], 'acquired')
	lock.release()
	v.check(len(seen) == 2 and sorted(seen[1], key=repr) == sorted(want, key=repr), 'released')

@finding('P25', 'alock-blocking-partial', 'a blocking acquire() that fails at a later key leaves the earlier keys locked in the session')
def partial():
	class V(object):
		def check(self, c, w): pass
	db = DB(V())
	lock = alock.ExclusiveLock(db, 1, 2)
	db.sys.breaks = lambda m, k: k == 2
	try:
		lock.acquire()
	except Fails:
		pass
	return db.sys.held
