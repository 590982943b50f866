from pyvc.api import loop
from pyvc import sym
from contracts.common import *

@loop('postgresql.copyman:WireState.update', 0, when=lambda env: not has_ghost('within'))
def _(env, inv, L):
	"the complete messages passed so far are counted; view is what follows"
	ms, t, left = inv.ghost('messages'), inv.ghost('tail'), inv.ghost('left')
	c = sym.ctx()
	inv.cond(env.vlen == size(env.view), 'vlen')
	e = L.entry
	inv.eq(env.size_fragment, b'', 'no fragment')
	if inv.mode == 'assume':
		k = c.choose(4)
	elif L.heads == 1:
		return
	else:
		k = None
	base = e.nmessages + (1 if e.remaining_bytes > 0 else 0)
	if k == 0:
		# entry
		inv.eq(env.view, e.view)
		inv.cond(env.remaining_bytes == e.remaining_bytes)
		inv.cond(env.nmessages == e.nmessages)
		return
	inv.cond(env.nmessages >= base, 'count')
	inv.cond(env.nmessages <= base + size(ms), 'count')
	n = env.nmessages - base
	rest = ms[n:]
	inv.eq(env.view, DATA(rest) + t, 'what follows')
	if k is None:
		if env.remaining_bytes == 0:
			k = 1
		elif size(rest) > 0:
			k = 2
		else:
			k = 3
	if k == 1:
		inv.cond(env.remaining_bytes == 0, 'between messages')
	elif k == 2:
		inv.cond(size(rest) > 0)
		inv.cond(env.remaining_bytes == size(rest[0]) + 5, 'at a header')
	else:
		inv.cond(size(rest) == 0)
		inv.cond(env.remaining_bytes == left + size(t), 'at the last header')
		inv.cond(left > 0, 'incomplete')
