from pyvc.api import loop
from contracts.common import ATTS, size, has_ghost

@loop('postgresql.protocol.element3:Tuple.parse', 0, mut=('atts',))
def _(env, inv, L):
	if has_ghost('data'):
		d = inv.ghost('data')
		inv.prefix(ATTS(env.atts), d[2:], 'the fields read so far')
		inv.cond(env.natts + size(env.atts) == L.entry.natts, 'count')
		inv.cond(env.natts >= 0, 'fields left')
	else:
		rest = inv.prefix(env.atts, inv.ghost('fields'), 'fields read so far')
		inv.cond(env.natts == size(rest), 'fields left')
	inv.cond(env.offset == 2 + size(ATTS(env.atts)), 'offset')

@loop('postgresql.python.structlib:split_sized_data', 0)
def _(env, inv, L):
	if has_ghost('data'):
		rest = inv.prefix(ATTS(env.vc_yielded), inv.ghost('data'), 'fields read so far')
		inv.eq(env.v, rest, 'remaining data')
	else:
		rest = inv.prefix(env.vc_yielded, inv.ghost('fields'), 'fields read so far')
		inv.eq(env.v, ATTS(rest), 'remaining data')
	inv.cond(env.f >= 1)
