"""
put_messages takes a batch message by message.  The invariant: the stage of the
generator is the one the specification (contracts.P11.react) gives after the
messages taken.  A stage is that of a generator brought there from the start;
where it must be proved, it is shown by what the generator does next.
"""
import sys
from pyvc.api import loop
from contracts.common import size, has_ghost

def m():
	return sys.modules['contracts.P11']
def ghosts():
	from pyvc import core
	return core.CTX.ghosts
def last(L):
	return L.done.pieces[-1][1][-1]

def rope(l):
	from pyvc import sym
	return sym.SSeq('list', (('L', tuple(l)),) if l else ())

STAGES = ('asked', 'answered', 'key', 'ready')

def stage(c=None):
	g = ghosts()
	if 'stage' not in g:
		from pyvc.core import ctx
		S = [s for s in STAGES if s == g['stage0'] or (s == 'key' and g['stage0'] in ('asked', 'answered')) or (s == 'ready' and g['stage0'] != 'ready')]
		g['stage'] = S[ctx().choose(len(S))]
	return g['stage']

def machine(c):
	"a machine at the stage"
	x, s, e3 = ghosts()['x'], stage(), m().e3
	g = x.state_machine()
	next(g)
	T = m().T
	if s == 'answered':
		g.send((T('R'), b'\0\0\0\3'))
	elif s != 'asked':
		g.send((T('R'), b'\0\0\0\0'))
		if s == 'ready':
			g.send((T('K'), b'\0\0\0\1\0\0\0\2'))
	return g

def at(x, s):
	"the machine is at stage s, by what it does next (it is used up)"
	from pyvc.core import ctx
	T = m().T
	R0, R3, K, Z = (T('R'), b'\0\0\0\0'), (T('R'), b'\0\0\0\3'), (T('K'), b'\0\0\0\1\0\0\0\2'), (T('Z'), b'I')
	def given(msg):
		try:
			return 'sends' if x.machine.send(msg) else 'waits'
		except StopIteration:
			return 'failed' if x.fatal else 'done'
	way = {'asked': (R0, K, Z), 'answered': (R0, K, Z), 'key': (K, Z), 'ready': (Z,)}[s]
	wrong = {'asked': (R3, 'sends'), 'answered': (R3, 'failed'), 'key': (R0, 'failed'), 'ready': (K, 'failed')}[s]
	if ctx().choose(2):
		r = given(wrong[0]) == wrong[1]
		x.__dict__.pop('fatal', None)
		x.__dict__.pop('error_message', None)
		return r
	return [given(w) for w in way] == ['waits'] * (len(way) - 1) + ['done']

def attrs(env):
	x = env.self
	from pyvc import sym
	def kept(o):
		o.pieces = ghosts()['kept'] = (('A', sym.new_atom('list', 'kept', elem=lambda n: m().PARSE['S'](m().ASYNC['S']))),)
	return [(x, 'machine', machine), (x.asyncs, None, kept), (x, 'authtype', lambda c: x.authtype), (x, 'authok', lambda c: x.authok), (x, 'killinfo', lambda c: x.killinfo), (x, 'last_ready', lambda c: None)]

def loop_when(env):
	return has_ghost('cut')

@loop('postgresql.protocol.xact3:Negotiation.put_messages', 0, attrs=attrs, when=loop_when)
def _(env, inv, L):
	g, c = ghosts(), m()
	x = g['x']
	inv.cond(env.count == size(L.done), 'messages taken')
	inv.cond(not env.out_messages, 'nothing sent yet')
	if inv.mode == 'assume':
		g['loop'] = L
		return
	if L.heads == 1:
		return
	S, msg = stage(), last(L)
	want = c.react(S, msg, g['user'], g['password'])
	inv.cond(want[0] in ('stays', 'goes'), 'goes on')
	if want[0] not in ('stays', 'goes'):
		return
	from pyvc.sym import norm_pieces
	before, now = norm_pieces(g['kept']), norm_pieces(x.asyncs.pieces)
	if want[0] == 'stays':
		inv.cond(len(now) == len(before) + 1 and now[-1][0] == 'L' and len(now[-1][1]) == 1 and now[-1][1][0] == c.PARSE[c.KIND_OF(msg)](msg[1]), 'parameters and notices are kept')
	else:
		inv.cond(len(now) == len(before), 'nothing else is kept')
	inv.cond(at(x, want[1] if want[0] == 'goes' else S), 'the stage')
