import hashlib, sys
from pyvc.api import *
from contracts.common import *
from postgresql.protocol import element3 as e3, xact3
from postgresql.protocol.message_types import message_types

# ---- the protocol of start-up (specification)
def T(k):
	return message_types[ord(k)]
def kv(*pairs):
	return b''.join([k + x + b'\0' for k, x in pairs]) + b'\0'
ERRORS = (kv((b'S', b'ERROR'), (b'C', b'28P01'), (b'M', b'bad')), kv((b'S', b'FATAL'), (b'C', b'57P03'), (b'M', b'starting up')))
ASYNC = {
	'N': kv((b'S', b'NOTICE'), (b'C', b'00000'), (b'M', b'note')), 'A': b'\0\0\0\1chan\0pay\0', 'S': b'server_version\x0016\0',
}
PARSE = {'N': e3.Notice.parse, 'A': e3.Notify.parse, 'S': e3.ShowOption.parse}
OTHERS = {'T': b'\0\0', 'C': b'SELECT\0', 'D': b'\0\0', '1': b'', 'v': b'\0\0\0\0\0\0\0\0', 'I': b''}

def md5_answer(user, password, salt):
	"what answers an MD5 request"
	return b'md5' + hashlib.md5(hashlib.md5(password + user).hexdigest().encode('ascii') + salt).hexdigest().encode('ascii')
def crypt_answer(password, salt):
	if is_symbolic():
		return xact3.crypt(password, salt)
	import warnings
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		import crypt
	return crypt.crypt(password.decode('ascii'), salt.decode('ascii')).encode('ascii')

def number(data):
	return int.from_bytes(data[:4], 'big')

def react(stage, m, user, password):
	"""
	('stays',) | ('goes', stage') | ('sends', password, stage') | ('failed', SQLSTATE) | ('done',)
	"""
	k = KIND_OF(m)
	if k == 'E':
		return ('failed', '28P01' if m[1] is ERRORS[0] or m[1] == ERRORS[0] else '57P03')
	if k in ASYNC:
		return ('stays',)
	if stage in ('asked', 'answered'):
		if k != 'R':
			return ('failed', '08P01')
		req = number(m[1])
		if req == 0:
			return ('goes', 'key')
		if stage == 'answered':
			return ('failed', '08P01')
		if req == 3:
			return ('sends', password, 'answered')
		if req == 5:
			return ('sends', md5_answer(user, password, m[1][4:]), 'answered')
		if req == 4:
			return ('sends', crypt_answer(password, m[1][4:]), 'answered')
		return ('failed', '--AUT')
	if stage == 'key':
		return ('goes', 'ready') if k == 'K' else ('failed', '08P01')
	return ('done',) if k == 'Z' else ('failed', '08P01')

def KIND_OF(m):
	return m[0].decode('ascii')
def code(x):
	c = x.error_message[b'C']
	return c if isinstance(c, str) else c.decode('ascii')

def lit(k, d):
	return Tup(Const(T(k)), d if isinstance(d, Bytes) else Const(d))
MESSAGE = Choice(lit('R', Bytes(minlen=4)), lit('K', Bytes(length=8)), Tup(Const(T('Z')), Choice(b'I', b'T', b'E')),
	*[lit('E', d) for d in ERRORS] + [lit(k, ASYNC[k]) for k in ASYNC] + [lit(k, OTHERS[k]) for k in OTHERS])

def reach(x, stage, how=None):
	"a negotiation brought to a stage, by the shortest way"
	x.sent()
	if stage == 'answered':
		x.put_messages(((T('R'), b'\0\0\0\3'),))
		x.sent()
	elif stage != 'asked':
		x.put_messages(((T('R'), b'\0\0\0\0'),))
		if stage == 'ready':
			x.put_messages(((T('K'), b'\0\0\0\1\0\0\0\2'),))
	return x

def startup(user):
	return e3.Startup([(b'user', user), (b'database', b'db')])

def check_end(v, x, want, m):
	if want[0] == 'failed':
		v.check(x.state is xact3.Complete, 'over')
		v.eq(x.fatal, True, 'fatal')
		v.eq(code(x), want[1], 'the error')
		v.check(x.messages == (), 'nothing sent')
	elif want[0] == 'done':
		v.check(x.state is xact3.Complete, 'complete')
		v.check(x.fatal is None, 'accepted')
		v.eq(x.last_ready.xact_state, m[1], 'ready')
		v.check(x.messages == (), 'nothing sent')
	elif want[0] == 'sends':
		v.check(x.state[0] is xact3.Sending and x.state[1] == x.sent, 'the answer is to be sent')
		v.eq(len(x.messages), 1, 'one message')
		a = x.messages[0]
		v.check(type(a) is e3.Password, 'a password')
		v.eq(a.bytes(), b'p' + be(4, size(want[1]) + 5) + want[1] + b'\0', 'in the form asked for')
		v.check(x.fatal is None, 'nothing failed')
	else:
		v.check(x.state[0] is xact3.Receiving and x.state[1] == x.put_messages, 'more is awaited')
		v.check(x.messages == (), 'nothing sent')
		v.check(x.fatal is None, 'nothing failed')

USER, PASSWORD = Bytes(free=NUL), Bytes(free=NUL, maxlen=10**6)

trust('crypt: some function of the password and the salt (compared with the C library on samples)')
@stub('postgresql.resolved.crypt:crypt')
def _(password, salt):
	from pyvc.stdmodels import SHash
	return SHash('crypt', salt + b'\0' + password)._app('bytes', 13, None)

@harness('P11', ['protocol.xact3.Negotiation.__init__', 'protocol.xact3.Negotiation.sent'])
def startup_first(v):
	"only the start-up message is sent until the server asks"
	user, pw = v.any('user', USER), v.any('password', PASSWORD)
	s = startup(user)
	x = xact3.Negotiation(s, pw)
	v.check(x.state[0] is xact3.Sending and x.state[1] == x.sent, 'to be sent')
	v.check(len(x.messages) == 1 and x.messages[0] is s, 'the start-up message')
	v.check(x.fatal is None, 'nothing failed')
	x.state[1]()
	v.check(x.messages == (), 'sent once')
	v.check(x.state[0] is xact3.Receiving and x.state[1] == x.put_messages, 'the server is awaited')
	v.eq(list(x.messages_received()), [], 'nothing received')

@harness('P11', ['protocol.xact3.Negotiation.put_messages', 'protocol.xact3.Negotiation.state_machine', 'protocol.xact3.Negotiation.unsupported_auth_request', 'protocol.xact3.Negotiation.sent'], seconds=400, paths=20000)
def batches(v):
	"from any stage, any batch of any number of messages: what the protocol says, message by message"
	user, pw = v.any('user', USER), v.any('password', PASSWORD)
	stage = v.any('stage', Choice('asked', 'answered', 'key', 'ready'))
	x = reach(xact3.Negotiation(startup(user), pw), stage)
	batch = v.any('messages', Search(Seq(MESSAGE, 'tuple', minlen=1), lambda r, n: tuple([some_message(r) for i in range(r.randrange(1, 5))])))
	for m in ([] if v.symbolic else batch):
		v.assume(not (m[0] == b'R' and number(m[1]) == 4))
	if v.symbolic:
		x.asyncs = native().rope(x.asyncs)
	v.ghost(stage0=stage, x=x, user=user, password=pw, cut=True)
	r = x.put_messages(batch)
	if v.symbolic:
		g = native().ghosts()
		L, S = g['loop'], g['stage']
		if x.state[0] is not xact3.Receiving:
			m = native().last(L)
			want = react(S, m, user, pw)
			v.eq(r, size(L.done), 'messages taken')
		else:
			want, m = ('stays',), None
			v.eq(r, size(batch), 'messages taken')
		check_end(v, x, want, m)
		return
	want, n, kept, m = ('stays',), 0, [], None
	for m in batch:
		n += 1
		want = react(stage, m, user, pw)
		if want[0] == 'stays':
			kept.append(PARSE[KIND_OF(m)](m[1]))
		elif want[0] == 'goes':
			stage = want[1]
		else:
			break
	v.eq(r, n, 'messages taken')
	check_end(v, x, want, m)
	v.check(x.asyncs == kept and [type(a) for a in x.asyncs] == [type(a) for a in kept], 'parameters and notices are kept')
	if want[0] == 'done':
		v.check(x.authok.request == 0, 'authenticated')

def some_message(r):
	k = r.choice('RRRRRKKZZENASTCD1vI')
	if k == 'R':
		return (T('R'), r.choice((0, 0, 0, 3, 5, 5, 10, 7, 2**32 - 1, r.randrange(13))).to_bytes(4, 'big') + bytes(r.randrange(256) for i in range(r.choice((0, 4, 4)))))
	d = r.choice(ERRORS) if k == 'E' else ASYNC.get(k) or OTHERS.get(k)
	return (T(k), bytes(r.randrange(256) for i in range(8)) if k == 'K' else r.choice((b'I', b'T', b'E')) if k == 'Z' else d)

def native():
	return sys.modules['contracts.P11_loops']

@harness('P11', ['protocol.xact3.Negotiation.put_messages', 'protocol.xact3.Negotiation.state_machine'], mode='sampled', runs=6000, bound='random conversations of up to 20 messages')
def conversations(v):
	"whole negotiations: only the one that was asked for the password sends it, and only the authenticated one is accepted"
	user, pw, ms, cuts = v.any('conversation', Search('conversation', some_conversation))
	x = xact3.Negotiation(startup(user), pw)
	x.state[1]()
	stage, kept, got, keyed = 'asked', [], [], None
	while ms:
		batch, cuts = tuple(ms[:cuts[0]]), cuts[1:] + cuts[:1]
		o, r = v.outcome(x.put_messages, batch)
		want, n = ('stays',), 0
		for m in batch:
			n += 1
			if KIND_OF(m) == 'R' and len(m[1]) < 4 and stage in ('asked', 'answered'):
				want = ('malformed',)
				break
			want = react(stage, m, user, pw)
			if KIND_OF(m) == 'K' and want[0] == 'goes':
				if len(m[1]) != 8:
					want = ('malformed',)
					break
				keyed = m[1]
			if want[0] == 'stays':
				kept.append(PARSE[KIND_OF(m)](m[1]))
			elif want[0] == 'goes':
				stage = want[1]
			else:
				break
		if want[0] == 'malformed':
			v.check(o == 'raise', 'malformed messages are refused')
			return
		v.check(o == 'ok', 'no exception')
		v.eq(r, n, 'messages taken')
		check_end(v, x, want, m)
		got += batch
		v.eq(list(x.messages_received()), got, 'messages received')
		v.check(x.asyncs == kept, 'parameters and notices are kept')
		if want[0] == 'done':
			v.check(x.killinfo.pid == int.from_bytes(keyed[:4], 'big') and x.killinfo.key == int.from_bytes(keyed[4:], 'big'), 'cancellation key')
			return
		if want[0] == 'failed':
			return
		if want[0] == 'sends':
			stage = want[2]
			x.state[1]()
		ms = ms[n:]
def some_conversation(r, size):
	user, pw = bytes(r.randrange(1, 256) for i in range(r.randrange(6))), r.choice((b'', b'pass word', b'\xc3\xa9', b'x' * 9))
	first = r.choice((0, 3, 5, 5, 4))
	if first == 4:
		pw = r.choice((b'', b'secret', b'longer than eight', b'a'))
	salt = r.choice((b'ab', b'./', b'zZ', b'9Q')) if first == 4 else bytes(r.randrange(256) for i in range(4))
	ms = [(T('R'), first.to_bytes(4, 'big') + (salt if first in (4, 5) else b''))]
	if first:
		ms.append((T('R'), bytes(4)))
	ms += [(T('K'), bytes(r.randrange(256) for i in range(8))), (T('Z'), b'I')]
	for i in range(r.choice((0, 0, 1, 3))):
		k = r.choice('NAS')
		ms.insert(r.randrange(len(ms) + 1), (T(k), ASYNC[k]))
	if r.random() < .5:
		i = r.randrange(len(ms))
		k = r.randrange(4)
		if k == 0: del ms[i]
		elif k == 1: ms.insert(i, some_message(r))
		elif k == 2: ms[i] = some_message(r)
		else: ms[i] = (ms[i][0], ms[i][1][:r.randrange(len(ms[i][1]) + 1)]) if ms[i][0] in (b'R', b'K') else ms[i]
	for m in ms:
		if m[0] == b'R' and m[1][:4] == b'\0\0\0\4' and not (len(m[1]) == 6 and pw.isascii()):
			return some_conversation(r, size)
	return user, pw, ms, [r.choice((1, 1, 2, 3, 20)) for i in range(4)]

@harness('P11', ['protocol.xact3.Negotiation.put_messages'])
def interrupted(v):
	"a batch given again is refused: the answer is never sent twice"
	user, pw = v.any('user', USER), v.any('password', PASSWORD)
	x = xact3.Negotiation(startup(user), pw)
	x.sent()
	k = v.any('kind', Choice(0, 3))
	batch = ((T('S'), ASYNC['S']), (T('R'), be(4, k)))
	x.put_messages(batch)
	if x.state[0] is xact3.Sending:
		x.sent()
	o, r = v.outcome(x.put_messages, batch)
	v.check(o == 'raise' and type(r) is RuntimeError, 'refused')
	v.check(x.messages == (), 'nothing sent')
