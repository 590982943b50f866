import itertools, sys
from pyvc.api import *
from contracts.common import *
from postgresql.protocol import element3 as e3, xact3
from postgresql.protocol.message_types import message_types

# ---- the protocol (specification): what may answer each command, by step
END = None
REPLIES = {
	'Query': {
		'start': {'T': 'rows', 'I': 'start', 'C': 'start', 'H': 'out', 'G': 'fin', 'Z': END},
		'fin': {'C': 'start'},
		'out': {'d': 'out', 'c': 'fin'},
		'rows': {'D': 'rows', 'C': 'start', 'Z': END},
	},
	'Function': {'start': {'V': 'fin'}, 'fin': {'Z': END}},
	'Parse': {'start': {'1': END}},
	'Bind': {'start': {'2': END}},
	'Describe': {'start': {'t': 'form', 'T': END}, 'form': {'n': END, 'T': END}},
	'Close': {'start': {'3': END}},
	'Execute': {
		'start': {'D': 'rows', 'H': 'out', 'G': 'fin', 'I': END, 'C': END},
		'rows': {'D': 'rows', 's': END, 'C': END},
		'out': {'d': 'out', 'c': 'fin'},
		'fin': {'C': END},
	},
	'Sync': {'start': {'Z': END}},
	'Flush': None,
}
ASYNC = 'NAS'
COMMANDS = {
	'Query': e3.Query(b'select'), 'Function': e3.Function(1, (), (), b'\0\1'), 'Parse': e3.Parse(b's', b'select', ()),
	'Bind': e3.Bind(b'c', b's', (), (), ()), 'Describe': e3.DescribeStatement(b's'), 'Close': e3.CloseStatement(b's'),
	'Execute': e3.Execute(b'c', 0), 'Sync': e3.SynchronizeMessage, 'Flush': e3.FlushMessage,
}
# the number a step has in the code under contract (its state, not its behaviour)
STEP = {
	'Query': ('start', 'fin', 'out', 'rows'), 'Function': ('start', 'fin'), 'Describe': ('start', 'form'),
	'Execute': ('start', 'rows', 'out', 'fin'),
}
def step_number(kind, step):
	return STEP.get(kind, ('start',)).index(step)

def kv(*pairs):
	return b''.join([k + x + b'\0' for k, x in pairs]) + b'\0'
MESSAGES = {
	'T': b'\0\0', 'I': b'', 'C': b'SELECT\0', 'H': b'\0\0\0', 'G': b'\0\0\0', 'Z': b'I', 'D': b'\0\1\0\0\0\1x', 'd': b'data', 'c': b'',
	'V': b'\xff\xff\xff\xff', '1': b'', '2': b'', '3': b'', 't': b'\0\0', 'n': b'', 's': b'',
	'N': kv((b'S', b'NOTICE'), (b'C', b'00000'), (b'M', b'note')), 'A': b'\0\0\0\1chan\0pay\0', 'S': b'name\0value\0',
	'E': kv((b'S', b'ERROR'), (b'C', b'42601'), (b'M', b'bad')), 'F': kv((b'S', b'FATAL'), (b'C', b'57P01'), (b'M', b'worse')),
	'R': b'\0\0\0\0', 'K': b'\0\0\0\1\0\0\0\2', '?': b'',
}
def message(k):
	return (message_types[ord('E' if k == 'F' else k)], MESSAGES[k])
ALL = tuple(MESSAGES)
PAIRS = {k: message(k) for k in ALL}
KIND = {id(p): k for k, p in PAIRS.items()}
def parsed(k):
	"what is kept of a reply"
	m = {'T': e3.TupleDescriptor, 'I': e3.Null, 'C': e3.Complete, 'H': e3.CopyToBegin, 'G': e3.CopyFromBegin, 'Z': e3.Ready, 'D': e3.Tuple, 'c': e3.CopyDone,
		'V': e3.FunctionResult, '1': e3.ParseComplete, '2': e3.BindComplete, '3': e3.CloseComplete, 't': e3.AttributeTypes, 'n': e3.NoData, 's': e3.Suspension,
		'N': e3.Notice, 'A': e3.Notify, 'S': e3.ShowOption, 'E': e3.Error, 'F': e3.Error}.get(k)
	return MESSAGES[k] if k == 'd' else m.parse(MESSAGES[k])

def succ(shape, state, k):
	"""
	What reply k does in state (command, step, last reply of the command in the batch):
	('go', state', kept, handed over) | ('end', kept) | ('failed', fatal) | ('violation',)
	"""
	o, step, how = state
	kind = shape[o]
	nxt = REPLIES[kind][step].get(k, 0)
	if nxt != 0:
		if nxt is not END:
			return ('go', (o, nxt, k), [k], [])
		o += 1
		while o < len(shape) and shape[o] == 'Flush':
			o += 1
		return ('end', [k]) if o == len(shape) else ('go', (o, 'start', None), [k], [])
	if k == 'F':
		return ('failed', True)
	if k == 'E':
		if kind == 'Query':
			return ('go', (o, 'start', 'error'), [], [])
		if kind == 'Function':
			return ('go', (o, 'fin', 'error'), [], [])
		while o < len(shape) and shape[o] != 'Sync':
			o += 1
		return ('failed', False) if o == len(shape) else ('go', (o, 'start', 'error'), [], [])
	if k in ASYNC:
		return ('go', state, [], [k])
	return ('violation',)

def mode(shape, state):
	"how the next messages are expected"
	o, step, how = state
	if shape[o] in ('Query', 'Execute'):
		return {'D': 'rows', 'd': 'copy', 'H': 'copy', 'G': 'feed'}.get(how, 'standard')
	return 'standard'

SHAPES = (
	('Query',), ('Query', 'Query'), ('Query', 'Flush'), ('Function',), ('Function', 'Query'),
	('Parse', 'Sync'), ('Parse', 'Flush', 'Bind', 'Sync'), ('Parse', 'Flush', 'Flush'), ('Bind', 'Execute', 'Sync'), ('Bind', 'Execute'), ('Describe', 'Sync'), ('Describe', 'Flush', 'Execute'),
	('Execute', 'Execute', 'Sync'), ('Execute', 'Sync', 'Parse', 'Sync'), ('Close', 'Close', 'Sync'), ('Close',), ('Sync', 'Execute'), ('Execute', 'Close', 'Function'),
)
def states(shape, hows=False):
	for o, kind in enumerate(shape):
		if REPLIES[kind] is not None:
			for step in REPLIES[kind]:
				yield (o, step)
def hows(shape, o, step):
	"the replies that lead to a step"
	r = {None}
	for st, t in REPLIES[shape[o]].items():
		r.update([k for k, n in t.items() if n == step])
	if (step == 'start' and shape[o] in ('Query', 'Sync')) or (shape[o] == 'Function' and step == 'fin'):
		r.add('error')
	return sorted(r, key=str)
LAST = 'CIsZ123nTt'  # replies that end a command

def code(x):
	"SQLSTATE of the error"
	c = x.error_message[b'C']
	return c if isinstance(c, str) else c.decode('ascii')

def check_end(v, x, shape, want):
	"what the instruction is after a batch; want = result of succ"
	if want[0] in ('failed', 'violation'):
		v.check(x.state is xact3.Complete, 'over')
		v.eq(x.fatal, want[0] == 'violation' or want[1], 'fatal')
		v.eq(code(x), '08P01' if want[0] == 'violation' else '57P01' if want[1] else '42601', 'the error')
	elif want[0] == 'end':
		v.check(x.state is xact3.Complete, 'complete')
	else:
		m = mode(shape, want[1])
		if m == 'feed':
			v.check(x.state[0] is xact3.Sending and x.state[1] == x.sent_from_stdin, 'copy data is awaited')
			rest = tuple([COMMANDS[k] for k in shape[want[1][0] + 1:]])
			v.check(x.CopyDoneSequence[0] is e3.CopyDoneMessage and type(x.CopyFailSequence[0]) is e3.CopyFail, 'ends of copy')
			v.check(x.CopyDoneSequence[1:] == rest and x.CopyFailSequence[1:] == rest, 'the commands left are sent again')
		else:
			v.check(x.state[0] is xact3.Receiving, 'receiving')
			v.check(x.state[1] == {'rows': x.put_tupledata, 'copy': x.put_copydata, 'standard': x.standard_put}[m], 'the way to receive')
			if want[1][2] == 'error':
				v.eq(x.fatal, False, 'failed, not fatally')
				v.eq(code(x), '42601', 'the error')

class Hook(object):
	"where asynchronous messages go"
	def __init__(self):
		self.n, self.all, self.last = 0, [], None
	def __call__(self, m):
		self.n = self.n + 1
		self.last = m
		if not is_symbolic():
			self.all.append(m)

def KIND_OF(m):
	for k, p in PAIRS.items():
		if p is m:
			return k
	for k, p in PAIRS.items():
		if p == m:
			return k
def same_reply(a, k):
	b = parsed(k)
	return type(a) is type(b) and a == b

def fold(shape, at, batch):
	"the specification on a batch: result of the last reply, replies kept, messages handed over, number taken"
	st, kept, handed, n = (at[0], at[1], None), [], [], 0
	want = ('go', st)
	for m in batch:
		n += 1
		want = succ(shape, st, KIND_OF(m))
		if want[0] != 'go':
			kept = kept + (want[1] if want[0] == 'end' else [])
			break
		st = want[1]
		kept = kept + want[2]
		handed = handed + want[3]
	return want, kept, handed, n

def one_batch(v, shapes):
	shape = v.any('commands', Choice(*shapes))
	if v.symbolic:
		at = v.any('step', Choice(*[s for s in states(shape) if s[0] == 0]))
	else:
		at = v.any('step', Search('step', lambda r, n: r.choice(list(states(shape)))))
	hook = Hook()
	x = xact3.Instruction([COMMANDS[k] for k in shape], hook)
	v.eq(x.messages, [COMMANDS[k] for k in shape], 'the commands are offered')
	again = v.any('again', Choice(False, True)) if v.symbolic else False
	begin = (at[0], step_number(shape[at[0]], at[1]))
	x.last = (None, None, begin)
	x.state = (xact3.Receiving, x.standard_put)
	x.messages = ()
	batch = v.any('messages', Seq(Choice(*[PAIRS[k] for k in ALL]), 'tuple', cap=7))
	before = None
	if again:
		# a batch given before, from the same step
		before = v.any('handed over before', Int(0, 1000))
		x.last = (batch, begin, ANYWHERE)
		x._asyncs = before
		x.completed = [(id(batch), KEPT)]
	v.ghost(shape=shape, at=at, x=x, hook=hook, again=again, before=before)
	r = x.standard_put(batch)
	if v.symbolic:
		after_symbolic(v, shape, at, x, batch, r, again)
		return
	want, kept, handed, n = fold(shape, at, batch)
	def result():
		v.eq(r, n, 'messages taken')
		check_end(v, x, shape, want)
		v.check(len(hook.all) == len(handed) and all([a.type == PAIRS[k][0] for a, k in zip(hook.all, handed)]), 'asynchronous messages, once each')
		if want[0] in ('go', 'end'):
			c = [y for i, ys in x.completed for y in ys]
			v.check(len(c) == len(kept) and all([same_reply(a, k) for a, k in zip(c, kept)]), 'replies kept')
	result()
	if want[0] == 'go':
		for i in range(v.any('times again', Search('times', lambda r, n: r.randrange(4)))):
			r = x.standard_put(batch)
			result()

ANYWHERE, KEPT = (0, 0), ['kept']
def after_symbolic(v, shape, at, x, batch, r, again):
	g = native().ghosts()
	L, S = g['loop'], g['state']
	if x.state is xact3.Complete:
		# ended at the last message taken
		k = native().last_kind(L)
		want = succ(shape, S, k)
		v.check(want[0] != 'go', 'not over yet')
		check_end(v, x, shape, want)
		v.eq(r, size(L.done), 'messages taken')
		if want[0] == 'end':
			v.eq(len(x.completed), 1, 'kept once')
			v.check(x.completed[0][1] is KEPT if again else native().kept(x.completed[0][1], g['P'], want[1]), 'replies kept')
			if k == 'Z':
				v.eq(x.last_ready, b'I', 'transaction state')
	else:
		v.eq(r, size(batch), 'messages taken')
		check_end(v, x, shape, ('go', S))
		v.check(x.last[0] is batch, 'the batch processed')
		v.eq(x.last[1], (at[0], step_number(shape[at[0]], at[1])), 'where it began')
		v.eq(x.last[2], (S[0], step_number(shape[S[0]], S[1])), 'where it ended')
		v.eq(len(x.completed), 1, 'kept once')
		v.check(x.completed[0][1] is KEPT if again else native().kept(x.completed[0][1], g['P'], []), 'replies kept')

def native():
	return sys.modules['contracts.P10_loops']

DOC = "from any step, any batch of any number of messages: what the protocol says, reply by reply"
FUN = ['protocol.xact3.Instruction.standard_put', 'protocol.xact3.Instruction.__init__']
def batches(name, shapes):
	def h(v):
		one_batch(v, shapes)
	h.__name__, h.__doc__ = name, DOC
	harness('P10', FUN, seconds=400, runs=3000, paths=30000)(h)
batches('batches_simple', SHAPES[:3])
batches('batches_function', SHAPES[3:5])
batches('batches_parse', SHAPES[5:8])
batches('batches_bind', SHAPES[8:10])
batches('batches_describe', SHAPES[10:12])
batches('batches_execute', SHAPES[12:14])
batches('batches_close', SHAPES[14:])

# ---- the fast paths: a batch of nothing but rows (or data), else standard_put
class Fast(xact3.Instruction):
	"records what falls back to the general way"
	general = None
	def standard_put(self, messages):
		self.general = messages
		return 7
def fast(v, kind, k, put, pairs):
	x = Fast([COMMANDS[kind], COMMANDS['Sync']])
	at = (0, step_number(kind, 'rows' if k == 'D' else 'out'))
	begin, end = (0, 0), at
	x.last = (None, begin, end)
	earlier = [(0, [1])]
	x.completed = list(earlier)
	x.messages = ()
	method = getattr(x, put)
	x.state = (xact3.Receiving, method)
	alike = v.any('alike', Choice(True, False))
	if alike:
		batch = v.any('messages', Seq(Choice(*pairs), 'tuple', minlen=1))
	else:
		batch = v.any('before', Seq(Choice(*pairs), 'tuple')) + (v.any('other', Choice(*[PAIRS[j] for j in ALL if j != k])),) \
			+ v.any('after', Seq(Choice(*(pairs + [PAIRS['C'], PAIRS['N']])), 'tuple'))
	r = method(batch)
	if not alike and not v.symbolic and x.general is None:
		# the compiled port takes the rows before the first other message
		lead = len(list(itertools.takewhile(lambda m: m[0] == k.encode(), batch)))
		v.check(lead > 0 and r == lead, 'the rows before')
		v.eq(x.completed[1][1], ROWS(batch[:lead]), 'in order')
		v.eq(x.last[1:], (end, end), 'the same step')
		return
	if not alike:
		v.check(x.general is batch, 'any other batch is processed in the general way')
		v.eq(r, 7, 'messages taken')
		v.check(x.state[0] is xact3.Receiving and x.state[1] == x.standard_put, 'in the general way')
		v.eq(len(x.completed), 1, 'nothing kept here')
		return
	want = ROWS(batch) if k == 'D' else DATA(batch)
	for i in range(2):
		v.check(x.general is None, 'processed here')
		v.eq(r, size(batch), 'messages taken')
		v.check(x.last[0] is batch, 'the batch processed')
		v.eq(x.last[1:], (end, end), 'the same step')
		v.eq(len(x.completed), 2, 'kept once')
		v.check(x.completed[1][0] == id(batch), 'by batch')
		v.eq(x.completed[1][1], want, 'in order')
		v.check(x.state[0] is xact3.Receiving and x.state[1] == method, 'the same way')
		v.check(x.fatal is None and x.messages == (), 'nothing else')
		r = method(batch)
DATA = Hom('data', 'list', lambda m: [m[1]], exactlen=1)
ROWS = Hom('rows', 'list', lambda m: [e3.Tuple.parse(m[1])], exactlen=1)

@harness('P10', ['protocol.xact3.Instruction.put_copydata'])
def copy_batches(v):
	fast(v, v.any('command', Choice('Query', 'Execute')), 'd', 'put_copydata', [(PAIRS['d'][0], d) for d in (b'data', b'', b'other')])
@harness('P10', ['protocol.xact3.Instruction.put_tupledata'])
def row_batches(v):
	fast(v, v.any('command', Choice('Query', 'Execute')), 'D', 'put_tupledata', [(PAIRS['D'][0], d) for d in (b'\0\0', b'\0\1\0\0\0\1x', b'\0\2\xff\xff\xff\xff\0\0\0\0')])

# ---- what is to be sent
@harness('P10', ['protocol.xact3.Instruction.__init__', 'protocol.xact3.Instruction.standard_sent'])
def commands_sent(v):
	"the commands are offered once, in order, then replies are awaited"
	shape = v.any('commands', Choice(*SHAPES))
	cs = [COMMANDS[k] for k in shape]
	x = xact3.Instruction(tuple(cs))
	v.eq(x.messages, cs, 'in order')
	v.eq(x.commands, tuple(cs), 'commands')
	v.check(x.state[0] is xact3.Sending and x.state[1] == x.standard_sent, 'to be sent')
	v.check(x.fatal is None, 'nothing failed')
	v.eq(list(x.messages_received()), [], 'nothing received')
	x.state[1]()
	v.eq(x.messages, (), 'sent once')
	v.check(x.state[0] is xact3.Receiving and x.state[1] == x.standard_put, 'replies awaited')

@harness('P10', ['protocol.xact3.Instruction.__init__'])
def commands_only(v):
	"anything but a command of the frontend is refused"
	k = v.any('message', Choice(e3.CopyDoneMessage, e3.CopyFail(b'x'), e3.CopyData(b'x'), e3.DisconnectMessage, e3.Password(b'x'), e3.Ready(b'I'), e3.NoDataMessage))
	before, after = v.any('before', Choice((), ('Query',), ('Parse', 'Sync'))), v.any('after', Choice((), ('Sync',)))
	o, r = v.outcome(xact3.Instruction, [COMMANDS[j] for j in before] + [k] + [COMMANDS[j] for j in after])
	v.check(o == 'raise' and type(r) is TypeError, 'refused')

@harness('P10', ['protocol.xact3.Instruction.sent_from_stdin', 'protocol.xact3.Instruction.standard_put'])
def copy_fed(v):
	"data to copy is sent once; unless the end is given, or more data, the copy is made to fail"
	kind = v.any('command', Choice('Query', 'Execute'))
	after = v.any('after', Choice((), ('Sync',), ('Query', 'Sync')))
	x = xact3.Instruction([COMMANDS[kind]] + [COMMANDS[k] for k in after])
	x.standard_sent()
	x.standard_put((PAIRS['G'],))
	v.check(x.state[0] is xact3.Sending and x.state[1] == x.sent_from_stdin, 'data awaited')
	rest = tuple([COMMANDS[k] for k in after])
	v.check(x.CopyDoneSequence[0] is e3.CopyDoneMessage and x.CopyDoneSequence[1:] == rest, 'done')
	v.check(type(x.CopyFailSequence[0]) is e3.CopyFail and x.CopyFailSequence[1:] == rest, 'fail')
	v.eq(x.messages, (), 'nothing to send yet')
	n = v.any('blocks', Choice(0, 1, 2))
	for i in range(n):
		x.state[1]()
		v.check(x.messages is x.CopyFailSequence, 'without more, it fails')
		v.check(x.state[0] is xact3.Sending and x.state[1] == x.sent_from_stdin, 'data awaited')
		x.messages = [e3.CopyData(b'row')]
	end = v.any('end', Choice('done', 'none'))
	if end == 'done':
		x.messages = x.CopyDoneSequence
	else:
		x.state[1]()
		v.check(x.messages is x.CopyFailSequence, 'made to fail')
	x.state[1]()
	v.eq(x.messages, (), 'sent once')
	v.check(x.state[0] is xact3.Receiving and x.state[1] == x.standard_put, 'replies awaited')

@harness('P10', ['protocol.xact3.Instruction.messages_received', 'protocol.xact3.Instruction.reverse'])
def replies_in_order(v):
	x = xact3.Instruction([COMMANDS['Sync']])
	a, b, c = v.any('first', Seq(Choice('x', 'y'), 'list', cap=4)), v.any('second', Seq(Choice('x', 'y'), 'list', cap=4)), v.any('third', Choice([], ['z'], ['z', 'w']))
	if v.symbolic:
		a, b = v.any('few', Choice([], ['a'], ['a', 'b'])), v.any('some', Choice([], ['c'], ['d', 'e']))
	x.completed = [(1, a), (2, b), (3, c)]
	v.eq(list(x.messages_received()), list(a) + list(b) + list(c), 'in the order received')
	v.eq(list(x.reverse()), list(reversed(list(a) + list(b) + list(c))), 'reversed')

# ---- whole exchanges, as the connection drives them
def some_shape(r):
	kinds = [k for k in COMMANDS]
	n = r.choice((1, 1, 2, 2, 3, 4, 5))
	s = [r.choice(kinds) for i in range(n)]
	if s[0] == 'Flush':
		s[0] = 'Parse'
	if r.random() < .5:
		s.append('Sync')
	return tuple(s)
def some_replies(r, shape, n):
	st, out = (0, 'start', None), []
	for i in range(r.randrange(1, 3 + 2 * n)):
		legal = list(REPLIES[shape[st[0]]][st[1]])
		p = r.random()
		k = r.choice(legal) if p < .8 else r.choice('NASNASE') if p < .97 else r.choice(ALL)
		if k in 'Dd' and k in legal:
			out += [k] * r.randrange(4)
		out.append(k)
		w = succ(shape, st, k)
		if w[0] != 'go':
			break
		st = w[1]
	return out
def some_exchange(r, n):
	shape = some_shape(r)
	replies, batches = some_replies(r, shape, n), []
	while replies:
		k = r.choice((1, 1, 2, 3, 5))
		batches.append(replies[:k])
		replies = replies[k:]
	return shape, batches, [r.choice(('done', 'fail', 'data')) for i in range(4)], r.random() < .2, [r.choice((0, 0, 0, 1, 2)) for b in batches]

@harness('P10', ['protocol.xact3.Instruction.' + f for f in ('standard_put', 'put_copydata', 'put_tupledata', 'sent_from_stdin', 'messages_received')], mode='sampled', runs=6000, size=8,
	bound='random instructions of up to 6 commands with up to 20 replies cut at random into batches')
def exchange(v):
	"with the compiled port and without"
	shape, batches, ends, raising, again = v.any('exchange', Search('exchange', some_exchange))
	for mod in (xact3, pure('postgresql.protocol.xact3')):
		one_exchange(v, mod, shape, batches, list(ends), raising, again)
def one_exchange(v, mod, shape, batches, ends, raising, again):
	handed = []
	def hook(m):
		handed.append(m)
		if raising:
			raise RuntimeError("hook")
	x = mod.Instruction([COMMANDS[k] for k in shape], hook)
	x.handed = handed
	v.eq(x.messages, [COMMANDS[k] for k in shape], 'offered')
	x.state[1]()
	x.spec = (0, 'start', None), [], []
	excepthook = sys.excepthook
	sys.excepthook = lambda *a: None
	try:
		for ks, times in zip(batches, again):
			if x.state[0] is mod.Sending:
				# the copy is fed
				rest = tuple([COMMANDS[k] for k in shape[x.spec[0][0] + 1:]])
				e = ends.pop() if ends else 'done'
				x.state[1]()
				v.check(x.messages is x.CopyFailSequence, 'fails unless fed')
				if e == 'data':
					x.messages = [e3.CopyData(b'x')]
					x.state[1]()
				if e != 'fail':
					x.messages = x.CopyDoneSequence
				v.check(x.messages[0].type == (b'f' if e == 'fail' else b'c') and tuple(x.messages[1:]) == rest, 'end of the copy')
				x.state[1]()
				v.eq(x.messages, (), 'sent')
			over = give(v, x, mod, shape, ks, times, raising)
			if over:
				break
	finally:
		sys.excepthook = excepthook
def give(v, x, mod, shape, ks, times, raising):
	"one batch, until nothing is left of it; True if the exchange is over"
	st, kept, gone = x.spec
	while ks:
		batch = tuple([PAIRS[k] for k in ks])
		r = x.state[1](batch)
		v.check(1 <= r <= len(ks), 'messages taken')
		now, n = [], 0
		for k in ks[:r]:
			n += 1
			want = succ(shape, st, k)
			if want[0] != 'go':
				if want[0] == 'end':
					now = now + want[1]
				break
			st = want[1]
			now, gone = now + want[2], gone + want[3]
		v.eq(r, n, 'messages taken')
		if want[0] in ('go', 'end'):
			kept = kept + now
		for i in range(1 + times):
			if i and x.state[0] is mod.Receiving:
				v.eq(x.state[1](batch), r, 'messages taken again')
			v.check([type(m) for m in x.handed] == [type(parsed(k)) for k in gone], 'handed over once')
			if want[0] == 'go':
				v.check(x.state is not mod.Complete, 'not over')
				v.check((x.state[0] is mod.Sending) == (mode(shape, st) == 'feed' and KEPT_LAST(now) == 'G'), 'data awaited')
			elif want[0] == 'end':
				v.check(x.state is mod.Complete, 'complete')
			else:
				v.check(x.state is mod.Complete, 'over')
				v.eq(x.fatal, want[0] == 'violation' or want[1], 'fatal')
				v.eq(code(x), '08P01' if want[0] == 'violation' else '57P01' if want[1] else '42601', 'the error')
				return True
			got = list(x.messages_received())
			v.check(len(got) == len(kept) and all([same_reply(a, k) for a, k in zip(got, kept)]), 'replies kept, in order')
			v.check([id(m) for m in x.reverse()] == [id(m) for m in reversed(got)], 'and reversed')
			if 'Z' in kept:
				v.eq(x.last_ready, b'I', 'transaction state')
		if want[0] == 'end':
			return True
		ks = ks[r:]
		x.spec = st, kept, gone
	return False
def KEPT_LAST(now):
	return now[-1] if now else None
