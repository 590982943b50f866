from pyvc.api import *
from contracts.common import *
from postgresql.python import functools as F, itertools as I
from postgresql.python.functools import Composition, rsetattr
PF = pure('postgresql.python.functools')

class Boom(Exception):
	pass
class Handled(Exception):
	pass
class Base(BaseException):
	pass

def mod(v):
	return F if v.symbolic else (F, PF)[v.any('implementation', Choice(0, 1))]

def procs(n, fail, log, exc=Boom):
	def mk(i):
		def proc(x):
			log.append((i, x))
			if i == fail:
				raise exc(i)
			return (i, x)
		return proc
	return tuple([mk(i) for i in range(n)])

CELL = Opt(Int(0, 10**6))

def handler(calls):
	def h(cause, ps, tup, at):
		calls.append((cause, ps, tup, at))
		raise Handled(at)
	return h

class Procs(object):
	"processors of a row of any width: the k-th takes the k-th column only, once, after those before it"
	def __init__(self, v, row, fail):
		self.v, self.row, self.fail = v, row, fail
		self.next, self.raised = 0, None
	def __len__(self):
		return size(self.row)
	def __getitem__(self, k):
		def proc(x):
			v = self.v
			v.check(x is not None, 'NULL is not processed')
			v.eq(x, self.row[k], 'its own column')
			v.check(k >= self.next and self.raised is None, 'once, in order')
			self.next = k + 1
			if k == self.fail:
				self.raised = k
				raise Boom(k)
			return (x,)
		return proc
DONE = Hom('spec-row', 'list', lambda x: [None if x is None else (x,)], exactlen=1)
UNDONE = Hom('spec-null', 'list', lambda x: [None], exactlen=1)

@harness('P29', ['functools.process_tuple'], paths=4000)
def every_column(v):
	"in a row of any width: the i-th function is applied to the i-th column, once, unless it is NULL; the first failure is located"
	M = mod(v)
	row = v.any('row', Seq(CELL, 'tuple'))
	if not v.symbolic:
		row = tuple(row)
	fail = v.any('fails', Int(0, 6))
	calls = []
	ps = Procs(v, row, fail)
	v.ghost(row=row, procs=ps, real=size(row))
	arg = ps
	if not v.symbolic:
		# the C code takes tuples
		arg = tuple([ps[i] for i in range(len(row))])
	o, x = v.outcome(M.process_tuple, arg, row, handler(calls))
	if ps.raised is not None:
		v.check(o == 'raise' and type(x) is Handled, 'the failing column is reported')
		v.eq(x.args[0], ps.raised, 'at its index')
		v.check(len(calls) == 1 and type(calls[0][0]) is Boom and calls[0][1] is arg and calls[0][2] is row, 'with the cause and the row')
		v.eq(calls[0][3], ps.raised, 'and the column')
	else:
		v.check(o == 'ok' and calls == [], 'a row')
		v.eq(list(x), DONE(list(row)), 'each result in its column, NULL stays NULL')

@harness('P29', ['functools.process_tuple'], mode='bounded', bound='rows of at most 5 columns', paths=9000)
def each_column(v):
	"the i-th function is applied to the i-th column, once, unless it is NULL; the first failure is located"
	M = mod(v)
	row = v.any('row', FixedSeq(CELL, range(6), 'tuple'))
	n = len(row)
	fail = v.any('fails', Choice(None, 0, 1, 2, 3, 4))
	log, calls = [], []
	ps = procs(n, fail, log)
	o, x = v.outcome(M.process_tuple, ps, row, handler(calls))
	failing = fail is not None and fail < n and row[fail] is not None
	done = [(i, row[i]) for i in range(n) if row[i] is not None and (not failing or i <= fail)]
	v.eq(log, done, 'every function once, on its own column, in order')
	if failing:
		v.check(o == 'raise' and type(x) is Handled and x.args[0] == fail, 'the failing column is reported')
		v.check(len(calls) == 1 and type(calls[0][0]) is Boom and calls[0][1] is ps and calls[0][3] == fail, 'with the cause and its column')
		v.eq(calls[0][2], row, 'and the row')
	else:
		v.check(o == 'ok' and type(x) is tuple, 'a row')
		v.eq(x, tuple([None if row[i] is None else (i, row[i]) for i in range(n)]), 'each result in its column, NULL stays NULL')
		v.check(calls == [], 'no failure')

@harness('P29', ['functools.process_tuple'], mode='bounded', bound='rows of at most 5 columns')
def width(v):
	"a row of another width is refused before any function is called"
	M = mod(v)
	row = v.any('row', FixedSeq(CELL, range(6), 'tuple'))
	n = v.any('functions', Choice(*range(7)))
	if n == len(row):
		n = n + 1
	log = []
	o, x = v.outcome(M.process_tuple, procs(n, None, log), row, handler([]))
	v.check(o == 'raise' and type(x) is TypeError, 'refused')
	v.check(log == [], 'nothing was called')

@harness('P29', ['functools.process_tuple'], mode='bounded', bound='rows of at most 3 columns')
def other_failures(v):
	"a handler that returns is an error; exceptions that are no Exception pass unhandled"
	M = mod(v)
	row = v.any('row', FixedSeq(Int(0, 9), range(1, 4), 'tuple'))
	at = v.any('fails', Choice(0, 1, 2))
	if at >= len(row):
		at = 0
	calls = []
	o, x = v.outcome(M.process_tuple, procs(len(row), at, []), row, lambda *a: calls.append(a))
	v.check(o == 'raise' and type(x) is RuntimeError and len(calls) == 1, 'a handler must raise')
	calls = []
	try:
		M.process_tuple(procs(len(row), at, [], Base), row, handler(calls))
		v.fail('BaseException passes')
	except Base as e:
		v.check(e.args[0] == at and calls == [], 'BaseException passes')

@harness('P29', ['functools.process_chunk', 'functools.process_tuple'], mode='bounded', bound='chunks of at most 3 rows of 2 columns')
def each_row(v):
	M = mod(v)
	rows = v.any('rows', FixedSeq(Tup(CELL, CELL), range(4)))
	log, calls = [], []
	fail = v.any('fails', Choice(None, 1))
	arg = rows if v.any('list', Choice(True, False)) else tuple(rows)
	before = list(rows)
	o, x = v.outcome(M.process_chunk, procs(2, fail, log), arg, handler(calls))
	v.eq(list(arg), before, 'the chunk itself is left alone')
	bad = [r for r in rows if fail is not None and r[fail] is not None]
	if bad:
		v.check(o == 'raise' and type(x) is Handled and len(calls) == 1, 'the failure is reported')
		v.eq(calls[0][2], bad[0], 'with the failing row')
	else:
		v.eq(x, [tuple([None if r[i] is None else (i, r[i]) for i in range(2)]) for r in rows], 'row by row, in order')

class Step(G):
	"a function that takes the result of the one before"
	class fn(object):
		def __init__(self, name):
			self.name = name
		def __call__(self, x):
			t = self.track
			t.v.eq(x, t.now, 'the result of the function before')
			t.called = t.called + [self]
			t.now = t.now + 1
			return t.now
	def sym(self, name):
		return Step.fn(name)
	def ok(self, x):
		return type(x) is Step.fn
	def rand(self, r, size):
		return Step.fn('f%d' % r.getrandbits(30))
class Track(object):
	pass

@harness('P29', ['functools.Composition.__call__'])
def every_function(v):
	"a composition of any number of functions: each once, in order, on the result of the one before"
	M = mod(v)
	t = Step.fn.track = Track()
	fs = v.any('functions', Seq(Step(), 'tuple'))
	x = v.any('argument', Int())
	t.v, t.now, t.called = v, x, []
	v.ghost(track=t)
	o, r = v.outcome(M.Composition.__call__, fs, x) if v.symbolic else v.outcome(M.Composition(fs), x)
	v.check(o == 'ok', 'composed')
	v.eq(t.called, list(fs), 'every function, once, in order')
	v.eq(r, t.now, 'the result of the last')

@harness('P29', ['functools.Composition.__call__', 'functools.rsetattr'], mode='bounded', bound='at most 5 functions')
def composition(v):
	M = mod(v)
	n = v.any('functions', Choice(*range(6)))
	x = v.any('argument', Opt(Int()))
	log = []
	fail = v.any('fails', Choice(None, 0, 3))
	c = M.Composition(procs(n, fail, log))
	o, r = v.outcome(c, x)
	want, ran = x, []
	for i in range(n):
		ran.append((i, want))
		if i == fail:
			break
		want = (i, want)
	v.eq(log, ran, 'each function once, on the result of the one before')
	if fail is not None and fail < n:
		v.check(o == 'raise' and type(r) is Boom, 'failures propagate')
	else:
		v.check(o == 'ok', 'composed')
		v.eq(r, want, 'result')
	class O(object):
		pass
	b = O()
	v.check(M.rsetattr('field', x, b) is b, 'rsetattr returns the object')
	v.eq(b.field, x, 'rsetattr sets the attribute')

@harness('P29', ['port.optimized.compose'], mode='sampled', runs=500, bound='at most 5 functions')
def composition_of_sequences(v):
	"tuples, lists and other sequences compose alike"
	try:
		from postgresql.port.optimized import compose
	except ImportError:
		return
	from collections import UserList
	n, x, log = v.any('functions', Int(0, 5)), v.any('argument', Int()), []
	kind = v.any('kind', Choice(tuple, list, UserList))
	r = compose(kind(procs(n, None, log)), x)
	want = x
	for i in range(n):
		want = (i, want)
	v.eq(r, want, 'result')

@harness('P29', ['itertools.chunk'], mode='bounded', bound='at most 9 objects, chunks of at most 4')
def chunks(v):
	"the chunks put together are the objects; all but the last are full"
	xs = v.any('objects', FixedSeq(Int(), range(10)))
	n = v.any('size', Choice(1, 2, 3, 4))
	cs = list(I.chunk(iter(xs), n))
	v.eq([x for c in cs for x in c], xs, 'the objects in order')
	v.check(all([len(c) == n for c in cs[:-1]]) and len(cs) >= 1 and len(cs[-1]) < n, 'full chunks, then the rest')
	v.check(len(list(I.chunk(xs))) == 1, 'one default chunk')
	ys = v.any('other', FixedSeq(Int(), range(4)))
	z = list(I.chunk(iter(ys * 130), 256)) if not v.symbolic else []
	if z:
		v.check([len(c) for c in z] == [256] * (len(ys) * 130 // 256) + [len(ys) * 130 % 256], 'chunk lengths')

@harness('P29', ['itertools.interlace'], mode='bounded', bound='at most 3 iterables of at most 4 objects')
def interlaced(v):
	n = v.any('iterables', Choice(1, 2, 3))
	m = v.any('length', Choice(0, 1, 2, 3, 4))
	xs = [[v.any('x%d.%d' % (i, j), Int()) for j in range(m)] for i in range(n)]
	v.eq(list(I.interlace(*xs)), [xs[i][j] for j in range(m) for i in range(n)], 'row by row')

# ---- the same over the results of statements
from postgresql.driver import pq3
from postgresql import exceptions as pg_exc
from postgresql.protocol import element3 as e3, xact3
DRIVER = pq3.Driver()
class PQ(object):
	"the end of a connection: every transaction is given the rows"
	socket, state = None, b'I'
	def __init__(self, rows):
		self.xact, self.rows = None, rows
	def push(self, x):
		self.xact = x
	def complete(self):
		x, self.xact = self.xact, None
		x.completed = [(None, [e3.BindCompleteMessage] + list(self.rows) + [e3.Complete(b'SELECT 1')])]
		x.state = xact3.Complete
		x.fatal = None
	def register_cursor(self, c, i):
		pass
class DB(pq3.Connection):
	closed = False
	def __init__(self, rows):
		super().__init__(pq3.IP4(host='h', port=5432, user='u', driver=DRIVER))
		self.pq = PQ(rows)
def result(how, rows, ps):
	"the rows as the statement gives them"
	db = DB(rows)
	s = pq3.Statement(db, 's1', 'SELECT rows')
	s.closed = False
	s._pq_statement_id = b's1'
	s._input, s._input_io, s._input_formats = (), (), ()
	s._output = e3.TupleDescriptor([(b'c%d' % i, 0, 0, 23, 4, -1, 1) for i in range(len(ps))])
	s._output_io, s._output_formats, s._output_attmap = ps, (), {}
	s._row_constructor = list
	if how == 'first':
		return s.first
	c = pq3.Cursor.__new__(pq3.Cursor)
	c.database, c.statement, c.parameters = db, s, None
	c._output, c._output_io, c._row_constructor = s._output, ps, list
	f = {'rows' : c._process_tuple_chunk_Row, 'chunks' : c._process_tuple_chunk, 'column' : c._process_tuple_chunk_Column}[how]
	return lambda: f(list(rows))

@harness('P29', ['driver.pq3.Output._process_tuple_chunk_Row', 'driver.pq3.Output._process_tuple_chunk', 'driver.pq3.Output._process_tuple_chunk_Column', 'driver.pq3.Output._raise_column_tuple_error', 'driver.pq3.Statement.first', 'driver.pq3.Statement._raise_column_tuple_error'],
	mode='bounded', bound='at most 2 rows of at most 3 columns', paths=20000)
def results(v):
	"rows, chunks, columns and first rows: each value in its column, NULL stays NULL, a value that cannot be unpacked is located"
	how = v.any('how', Choice('rows', 'chunks', 'column', 'first'))
	n = v.any('columns', Choice(1, 2, 3))
	m = v.any('rows', Choice(0, 1, 2))
	rows = [tuple([v.any('c%d.%d' % (i, j), Opt(Const(b'%d' % (10 * i + j)))) for j in range(n)]) for i in range(m)]
	fail = v.any('fails', Choice(None, 0, 1, 2))
	log = []
	ps = procs(n, fail, log)
	f = result(how, rows, ps)
	o, r = v.outcome(f)
	seen = rows[:1] if how == 'first' else rows
	wide = 1 if how == 'column' else n
	bad = fail is not None and fail < wide and [x for x in seen if x[fail] is not None]
	if bad:
		v.check(o == 'raise' and isinstance(r, pg_exc.ColumnError) and r.code == '--CIO', 'the failure is a column error')
		v.check(r.details.get('position') == str(fail), 'which names the column')
		v.check(type(r.__cause__) is Boom and r.__cause__.args == (fail,), 'and has its cause')
		v.check(r.details.get('detail') == repr(bad[0][fail]), 'and the data')
		return
	v.check(o == 'ok', 'unpacked')
	want = [[None if x[i] is None else (i, x[i]) for i in range(n)] for x in seen]
	if how == 'first':
		want = None if not want else want[0] if n > 1 else want[0][0]
	elif how == 'column':
		want = [x[0] for x in want]
	elif how == 'chunks':
		want = [tuple(x) for x in want]
	v.eq(r, want, 'each value in its column')
