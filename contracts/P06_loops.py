from pyvc.api import loop
from contracts.common import ATTS, TDESC, size

def fields(env, inv, L):
	"the fields read so far are a prefix; offset is the end of their encoding"
	rest = inv.prefix(env.args, inv.ghost('fields'), 'fields read so far')
	inv.cond(env.natts == size(rest), 'fields left')
	inv.cond(env.offset == L.entry.offset + size(ATTS(env.args)), 'offset')

loop('postgresql.protocol.element3:Bind.parse', 0)(fields)
loop('postgresql.protocol.element3:Function.parse', 0)(fields)

@loop('postgresql.protocol.element3:Tuple.parse', 0, mut=('atts',))
def _(env, inv, L):
	rest = inv.prefix(env.atts, inv.ghost('fields'), 'fields read so far')
	inv.cond(env.natts == size(rest), 'fields left')
	inv.cond(env.offset == L.entry.offset + size(ATTS(env.atts)), 'offset')

@loop('postgresql.protocol.element3:TupleDescriptor.parse', 0)
def _(env, inv, L):
	rest = inv.prefix(env.atts, inv.ghost('fields'), 'attributes read so far')
	inv.cond(env.ca == size(env.atts), 'count')
	inv.eq(env.data, TDESC(rest), 'remaining data')
