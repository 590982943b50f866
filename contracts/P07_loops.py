from pyvc.api import loop
from contracts.common import *
from pyvc import sym


def new_content(c):
	return (('A', sym.new_atom('bytes', 'content')),)

@loop('postgresql.protocol.pbuffer:pq_message_stream._rtruncate', 0,
	attrs=lambda env: [(env.strio, 'content', new_content), (env.strio, 'pos', None)])
def _(env, inv, L):
	"the first copyto_pos bytes are in place, everything else is as it was"
	if inv.mode == 'prove' and L.heads == 1:
		L.c0 = sym.SSeq('bytes', env.strio.content)
	n = size(L.c0)
	inv.cond(env.copyto_pos >= 0)
	inv.cond(env.copyfrom_pos == env.copyto_pos + env.amt)
	inv.cond(env.copyfrom_pos <= n)
	inv.cond(env.size == n)
	if inv.mode == 'assume':
		c = sym.ctx()
		c.assume(sym.Z(env.copyto_pos) <= sym.Z(n))
	w = L.c0[env.amt:env.copyfrom_pos] + L.c0[env.copyto_pos:]
	inv.eq(sym.SSeq('bytes', env.strio.content), w, 'content')

@loop('postgresql.protocol.pbuffer:pq_message_stream.__len__', 0, attrs=lambda env: [(env.strio, 'pos', None)])
def _(env, inv, L):
	"count messages were passed"
	ms = inv.ghost('messages')
	inv.cond(env.count >= 0)
	inv.cond(env.count <= size(ms))
	p = ms[:env.count]
	inv.eq(env.strio.pos, L.entry.rpos + size(FRAMES(p)), 'position')
	inv.eq(env.rpos, env.strio.pos, 'position')

@loop('postgresql.protocol.pbuffer:pq_message_stream.read', 0, attrs=lambda env: [(env.self._strio, 'pos', None)])
def _(env, inv, L):
	inv.cond(size(env.l) <= env.num)
	rest = inv.prefix(env.l, inv.ghost('messages'), 'messages read so far')
	e = L.entry.new_start + size(FRAMES(env.l))
	inv.eq(env.new_start, e, 'start')
	inv.eq(env.self._strio.pos, e, 'position')
