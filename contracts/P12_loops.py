import sys
from pyvc.api import loop
from contracts.common import size, has_ghost

def data(c):
	from pyvc import sym
	return sym.mkseq('bytes', (('A', sym.new_atom('bytes', 'data')),))
def ghosts():
	from pyvc import core
	return core.CTX.ghosts
def m():
	return sys.modules['contracts.P12']

@loop('postgresql.protocol.client3:Connection.send_message_data', 0, attrs=lambda env: [(env.self, 'message_data', data), (ghosts()['sock'], 'sent', data)])
def _(env, inv, L):
	"what was accepted and what is left are the data"
	s, whole = inv.ghost('sock'), inv.ghost('whole')
	inv.eq(s.sent + env.self.message_data, whole, 'every byte once')
	inv.cond(s.ended is None, 'nothing failed')

def pending(c):
	return data(c) if c.choose(2) else None

@loop('postgresql.protocol.client3:Connection.read_into', 0,
	attrs=lambda env: [(env.self, 'read_data', pending), (ghosts()['sock'], 'received', data), (ghosts()['buffer'], 'got', data), (ghosts()['buffer'], 'none', lambda c: False), (ghosts()['buffer'], 'has', lambda c: False)])
def _(env, inv, L):
	"what is in the buffer and what is pending is what was received"
	s, b, p = inv.ghost('sock'), inv.ghost('buffer'), inv.ghost('pending')
	d = env.self.read_data
	inv.eq(b.got + (b'' if d is None else d), p + s.received, 'every byte once')
	if d is not None:
		inv.cond(size(d) > 0, 'something is pending')
	inv.cond(s.ended is None, 'nothing failed')
	inv.cond(not b.has, 'no message yet')

# ---- complete: the transaction is in any state, any messages are left
def state(c):
	g = ghosts()
	f = g['f']
	k = ('sending', 'receiving', 'done', 'failed', 'fatal')[c.choose(5)]
	f.go(k)
	g['k'] = k
	return g['x'].state
def fatal(c):
	return ghosts()['x'].fatal
def left(c):
	return ((), ('left', 'over'))[c.choose(2)]
def attrs(env):
	g = ghosts()
	x, f, c = g['x'], g['f'], g['c']
	def ready(k):
		# a transaction that is over, and no failure, is one whose last message may have told the state
		x.__dict__.pop('last_ready', None)
		return None
	return [(x, 'state', state), (x, 'fatal', fatal), (x, 'error_message', lambda k: None), (c, 'read', left), (f, 'ready', ready), (f, 'expected', lambda k: None), (f, 'ops', None), (f, 'failed', lambda k: None)]
def inner(which):
	def inv_(env, inv, L):
		g = ghosts()
		x, f, c = g['x'], g['f'], g['c']
		if 'last_ready' in x.__dict__ and inv.mode == 'prove':
			g['told'] = x.last_ready
			del x.__dict__['last_ready']
		inv.cond(c.xact is x, 'the transaction')
		inv.cond(c.state == b'I', 'transaction state')
		if f.expected is not None:
			inv.cond(c.read is f.expected or c.read == f.expected, 'messages taken once')
		inv.cond(f.ready is None or inv.mode == 'assume', 'nothing is dropped')
		inv.cond(x.state is m().xact3.Complete or x.fatal is None, 'no failure while it goes on')
		inv.cond(not f.failed or (x.state is m().xact3.Complete and x.fatal is True), 'a failure is the end')
	return inv_
for k in range(3):
	loop('postgresql.protocol.client3:Connection.complete', k, attrs=attrs)(inner(k))
