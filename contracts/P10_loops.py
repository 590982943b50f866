"""
standard_put reads a batch reply by reply.  The invariant: the step is the one
the specification (contracts.P10.succ) gives after the replies read.  At the
head of the loop any reachable step is taken; after one reply the step, the
replies kept and the messages handed over must be those of succ.
"""
import sys
from pyvc.api import loop
from contracts.common import size

def m():
	return sys.modules['contracts.P10']
def ghosts():
	from pyvc import core
	return core.CTX.ghosts
def last_kind(L):
	p = L.done.pieces[-1]
	return m().KIND_OF(p[1][-1])

def head_state():
	g = ghosts()
	if 'state' not in g:
		from pyvc.core import ctx
		shape, at = g['shape'], g['at']
		c = m()
		cs = []
		for o, step in c.states(shape):
			if o < at[0]:
				continue
			for how in c.hows(shape, o, step):
				if how is None and (o, step) != tuple(at) and not (step == 'start' and o > at[0]):
					continue
				cs.append((o, step, how))
		g['state'] = cs[ctx().choose(len(cs))]
	return g['state']

def cmd():
	return m().COMMANDS[ghosts()['shape'][head_state()[0]]]
def xact3():
	return sys.modules['postgresql.protocol.xact3']

def pieces():
	"the replies kept so far: any, and the last one of the step"
	from pyvc.sym import new_atom
	from pyvc.core import ctx
	from pyvc.gen import Choice
	g = ghosts()
	o, step, how = g['state']
	at = g['at']
	c = m()
	A = ('A', new_atom('list', 'kept', elem=Choice(*[c.parsed(k) for k in 'CIZD']).sym))
	if how is None and (o, step) == tuple(at):
		return ()
	if how == 'error':
		return (A,)
	k = how if how is not None else 'CZ'[ctx().choose(2)]
	return (A, ('L', (c.parsed(k),)))

def same(a, b):
	return type(a) is type(b) and (a is b or a == b)
def kept(lst, P0, ks):
	"the list is P0 and the replies ks"
	from pyvc.sym import norm_pieces
	def flat(ps):
		out = []
		for p in ps:
			out.extend(p[1] if p[0] == 'L' else [p[1]])
		return out
	a, b = flat(norm_pieces(lst.pieces if hasattr(lst, 'pieces') else (('L', tuple(lst)),) if lst else ())), flat(norm_pieces(P0)) + [m().parsed(k) for k in ks]
	return len(a) == len(b) and all(map(same, a, b))

def attrs(env):
	from pyvc.core import ctx
	from pyvc.sym import SInt
	import z3
	x, hook = env.self, ghosts()['hook']
	def fill(o):
		o.pieces = pieces()
		ghosts()['P'] = o.pieces
	def fatal(c):
		return False if ghosts()['state'][2] == 'error' else 'as before'
	def err(c):
		return m().parsed('E')
	r = [(env.processed, None, fill), (hook, 'n', None), (hook, 'last', lambda c: None), (x, '_asyncs', None), (x, 'last_ready', lambda c: b'T'), (x, 'error_message', err), (x, 'fatal', fatal)]
	if not hasattr(x, 'last_ready'):
		x.last_ready = None
	if not hasattr(x, 'error_message'):
		x.error_message = None
	return r

@loop('postgresql.protocol.xact3:Instruction.standard_put', 0, attrs=attrs,
	havoc={'offset': lambda c: head_state()[0], 'current_step': lambda c: m().step_number(ghosts()['shape'][head_state()[0]], head_state()[1]),
		'cmd': lambda c: cmd(), 'paths': lambda c: xact3().Instruction.hook[cmd().type]})
def _(env, inv, L):
	g = ghosts()
	c = m()
	x, hook, shape = g['x'], g['hook'], g['shape']
	inv.cond(env.count == size(L.done), 'messages read')
	if inv.mode == 'assume':
		g['loop'] = L
		L.memo = (hook.n, x.fatal, x.last_ready, x._asyncs)
		inv.cond(0 <= x._asyncs)
		if not g['again']:
			inv.cond(x._asyncs <= env.count)
		return
	if L.heads == 1:
		o, step = g['at']
		inv.cond(env.offset == o and env.current_step == c.step_number(shape[o], step), 'the step begun with')
		inv.cond(kept(env.processed, (), []), 'nothing kept yet')
		inv.cond(x._asyncs == (g['before'] if g['again'] else 0), 'messages handed over before')
		return
	S = g['state']
	k = last_kind(L)
	want = c.succ(shape, S, k)
	inv.cond(want[0] == 'go', 'goes on')
	if want[0] != 'go':
		return
	o, step, how = want[1]
	inv.cond(env.offset == o, 'command')
	inv.cond(env.current_step == c.step_number(shape[o], step), 'step')
	inv.cond(env.cmd is c.COMMANDS[shape[o]], 'the command')
	inv.cond(env.paths is xact3().Instruction.hook[env.cmd.type], 'its replies')
	inv.cond(kept(env.processed, g['P'], want[2]), 'replies kept')
	n, fatal, ready, before = L.memo
	if want[3] and env.count > before:
		# a message is handed over unless it was when the batch was first given
		inv.cond(hook.n == n + 1, 'messages handed over')
		inv.cond(type(hook.last) is type(c.parsed(k)) and hook.last == c.parsed(k), 'the message handed over')
		inv.cond(x._asyncs == env.count, 'messages handed over')
	else:
		inv.cond(hook.n == n, 'messages handed over')
		inv.cond(x._asyncs == before, 'messages handed over')
	if k == 'E':
		inv.cond(x.fatal is False and c.code(x) == '42601', 'the error')
	else:
		inv.cond(x.fatal is fatal, 'no error')
	inv.cond(x.last_ready == (b'I' if k == 'Z' and want[2] else ready), 'transaction state')
