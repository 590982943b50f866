from pyvc.api import loop, stub
from pyvc import sym
from contracts.common import *

@loop('postgresql.resolved.riparse:unescape', 0, when=lambda env: has_ghost('escaped'))
def _(env, inv, L):
	"nstr is the part of the text whose escaped form ends at pos"
	t, E, chars = inv.ghost('escaped'), inv.ghost('form'), inv.ghost('class')
	if inv.mode == 'prove' and L.heads == 1:
		inv.eq(env.nstr, '', 'entry')
		inv.eq(env.pos, 0, 'entry')
		return
	rest = inv.prefix(env.nstr, t, 'restored so far')
	inv.cond(env.pos == size(E(env.nstr)), 'position')
	inv.cond(env.end == size(E(t)), 'end')
	if inv.mode == 'assume':
		# any text is one without escaped characters, or has a first one
		c = sym.ctx()
		u = sym.new_atom('str', 'plain', free=frozenset(chars))
		k = c.choose(len(chars) + 1)
		if k == len(chars):
			sym.assume_seq_eq(rest, sym.SSeq('str', (('A', u),)))
		else:
			w = sym.new_atom('str', 'more')
			sym.assume_seq_eq(rest, sym.SSeq('str', (('A', u), ('L', (sorted(chars)[k],)), ('A', w))))
