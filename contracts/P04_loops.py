from pyvc.api import loop
from contracts.common import ATTS, CAT, FIELDS, size, has_ghost

@loop('postgresql.types.io.lib:record_unpack', 0)
def _(env, inv, L):
	if has_ghost('data'):
		inv.prefix(FIELDS(env.vc_yielded), inv.ghost('data')[4:], 'the fields read so far')
		inv.cond(env.offset == 4 + size(FIELDS(env.vc_yielded)), 'offset')
	else:
		inv.prefix(env.vc_yielded, inv.ghost('fields'), 'fields read so far')
		inv.cond(env.offset == 4 + size(FIELDS(env.vc_yielded)), 'offset')
	inv.cond(L.i == size(env.vc_yielded), 'count')

@loop('postgresql.types.io.lib:elements_unpack', 0)
def _(env, inv, L):
	if has_ghost('data'):
		inv.prefix(ATTS(env.vc_yielded), inv.ghost('data'), 'the elements read so far')
		inv.cond(env.offset == size(ATTS(env.vc_yielded)), 'offset')
	else:
		rest = inv.prefix(env.vc_yielded, inv.ghost('elements'), 'elements read so far')
		inv.cond(size(env.data) == L.entry.offset + size(ATTS(env.vc_yielded)) + size(ATTS(rest)), 'length')
		inv.cond(env.offset == L.entry.offset + size(ATTS(env.vc_yielded)), 'offset')

@loop('postgresql.types.io.lib:elements_pack', 0)
def _(env, inv, L):
	inv.eq(ATTS(L.done), CAT(env.vc_yielded), "layout")
